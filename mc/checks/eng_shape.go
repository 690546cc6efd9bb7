package checks

import (
	"context"
	"fmt"
	"sort"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
)

// Mix is an entity whose children are held in every way the engine finds them.
type Mix struct {
	core
	Any    ddd.IEntity
	Note   string
	List   []ddd.IEntity
	Set    ddd.EntitySlice
	ByNum  map[int]*Sub
	Plain  map[string]int
	ByKey  map[string]ddd.IEntity
	Ptr    *Sub
	hidden *Sub
}

type mixSlot struct {
	name string
	subs bool // holds *Sub only
	one  bool // holds one entity
	get  func(m *Mix) []ddd.IEntity
	put  func(m *Mix, e ddd.IEntity)
	del  func(m *Mix, e ddd.IEntity)
}

func without(l []ddd.IEntity, e ddd.IEntity) (r []ddd.IEntity) {
	for _, o := range l {
		if o != e {
			r = append(r, o)
		}
	}
	return
}

var mixSlots = []mixSlot{
	{name: "Any", one: true,
		get: func(m *Mix) []ddd.IEntity {
			if m.Any == nil {
				return nil
			}
			return []ddd.IEntity{m.Any}
		},
		put: func(m *Mix, e ddd.IEntity) { m.Any = e },
		del: func(m *Mix, e ddd.IEntity) { m.Any = nil }},
	{name: "List",
		get: func(m *Mix) []ddd.IEntity { return m.List },
		put: func(m *Mix, e ddd.IEntity) { m.List = append(m.List, e) },
		del: func(m *Mix, e ddd.IEntity) { m.List = without(m.List, e) }},
	{name: "Set",
		get: func(m *Mix) []ddd.IEntity { return m.Set },
		put: func(m *Mix, e ddd.IEntity) { m.Set = append(m.Set, e) },
		del: func(m *Mix, e ddd.IEntity) { m.Set = without(m.Set, e) }},
	{name: "ByNum", subs: true,
		get: func(m *Mix) (l []ddd.IEntity) {
			var ks []int
			for k := range m.ByNum {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				l = append(l, m.ByNum[k])
			}
			return
		},
		put: func(m *Mix, e ddd.IEntity) {
			n := 0
			for m.ByNum[n] != nil {
				n++
			}
			if m.ByNum == nil {
				m.ByNum = map[int]*Sub{}
			}
			m.ByNum[n] = e.(*Sub)
		},
		del: func(m *Mix, e ddd.IEntity) {
			for k, o := range m.ByNum {
				if o == e {
					delete(m.ByNum, k)
				}
			}
		}},
	{name: "ByKey",
		get: func(m *Mix) (l []ddd.IEntity) {
			var ks []string
			for k := range m.ByKey {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				l = append(l, m.ByKey[k])
			}
			return
		},
		put: func(m *Mix, e ddd.IEntity) {
			k := "k"
			for m.ByKey[k] != nil {
				k += "k"
			}
			if m.ByKey == nil {
				m.ByKey = map[string]ddd.IEntity{}
			}
			m.ByKey[k] = e
		},
		del: func(m *Mix, e ddd.IEntity) {
			for k, o := range m.ByKey {
				if o == e {
					delete(m.ByKey, k)
				}
			}
		}},
	{name: "Ptr", subs: true, one: true,
		get: func(m *Mix) []ddd.IEntity {
			if m.Ptr == nil {
				return nil
			}
			return []ddd.IEntity{m.Ptr}
		},
		put: func(m *Mix, e ddd.IEntity) { m.Ptr = e.(*Sub) },
		del: func(m *Mix, e ddd.IEntity) { m.Ptr = nil }},
}

func (s mixSlot) takes(m *Mix, e ddd.IEntity) bool {
	_, sub := e.(*Sub)
	return (sub || !s.subs) && (!s.one || len(s.get(m)) == 0)
}

// scnShapes changes children held in every way, by programs of up to n steps.
func scnShapes(n, extra int) func(x *explore.X) {
	return func(x *explore.X) {
		h := newEH(x, ecfg{recursive: x.Pick("recursive", 2) == 1})
		h.seed()
		for _, r := range []row{{"Mix", "m1", "", 1, 1}, {"Mix", "m2", "", 2, 2}, {"Mix", "m3", "m1", 3, 3},
			{"Kid", "ka", "m1", 10, 0}, {"Sub", "sa", "ka", 11, 0}, {"Sub", "sb", "m1", 12, 0}, {"Kid", "kb", "m1", 13, 0}, {"Sub", "sc", "kb", 14, 0},
			{"Sub", "sd", "m1", 15, 0}, {"Sub", "se", "m1", 16, 0}, {"Sub", "sf", "m1", 17, 0}, {"Sub", "sg", "m1", 18, 0}, {"Kid", "kc", "m1", 19, 0},
			{"Sub", "sh", "m1", 20, 0}, {"Sub", "si", "m3", 21, 0}, {"Sub", "sj", "m1", 22, 0}, {"Sub", "sk", "m2", 23, 0}} {
			h.st.put(r)
		}
		e := h.engine()
		c := &erun{h: h, r: newRef(h), obj: map[string]ddd.IEntity{}}
		load := func(e ddd.IEntity, id string) ddd.IEntity {
			r := c.view().rows[typeName(e)+"/"+id]
			h.fill(e, r)
			c.obj[id] = e
			return e
		}
		sub := func(id string) *Sub { return load(&Sub{}, id).(*Sub) }
		c.body = func(ctx context.Context, c *erun) error {
			m1, m2 := &Mix{}, &Mix{}
			m1.SetID("m1")
			m2.SetID("m2")
			if err := c.repo.CustomGet(ctx, func(ctx context.Context, roots ...ddd.IEntity) {
				load(m1, "m1")
				load(m2, "m2")
				ka, kb, kc := load(&Kid{}, "ka").(*Kid), load(&Kid{}, "kb").(*Kid), load(&Kid{}, "kc").(*Kid)
				m3 := load(&Mix{}, "m3").(*Mix)
				ka.Subs, kb.Subs = []*Sub{sub("sa")}, []*Sub{sub("sc")}
				m3.ByNum = map[int]*Sub{-1: sub("si")}
				m1.Any, m1.List, m1.Set = ka, []ddd.IEntity{sub("sb"), kb, m3}, ddd.EntitySlice{sub("sd")}
				m1.ByNum, m1.Ptr = map[int]*Sub{0: sub("se"), 7: sub("sf")}, sub("sg")
				m1.ByKey = map[string]ddd.IEntity{"": kc, "x": sub("sh")}
				m1.hidden = sub("sj")
				m2.Any = sub("sk")
			}, m1, m2); err != nil {
				return err
			}
			c.r.loaded(m1)
			c.r.loaded(m2)
			steps := depthOf(x, n, extra)
			saved := false
			for i := 0; i < steps; i++ {
				var l []eop
				act := func(name string, f func()) { l = append(l, eop{name, func() error { f(); return nil }}) }
				for _, m := range []*Mix{m1, c.obj["m3"].(*Mix)} {
					m := m
					if q, _ := c.find(m.GetID()); q == nil {
						continue
					}
					for si, s := range mixSlots {
						s, next := s, mixSlots[(si+1)%len(mixSlots)]
						for _, k := range s.get(m) {
							k := k
							if !c.r.dirty[k] {
								act("change "+h.label(k), func() { c.mark(k) })
							}
							act("detach "+h.label(k), func() { s.del(m, k) })
							if next.takes(m, k) {
								act("move "+h.label(k)+" to "+next.name, func() { s.del(m, k); next.put(m, k) })
							}
							if s.takes(m2, k) {
								act("move "+h.label(k)+" to "+s.name+" of m2", func() { s.del(m, k); s.put(m2, k) })
							}
							if n := "for-" + h.label(k); m == m1 && c.obj[n] == nil {
								act("replace "+h.label(k), func() { s.del(m, k); s.put(m, c.newSub(n, "")) })
							}
						}
						if n := "new-" + s.name; m == m1 && c.obj[n] == nil && s.takes(m, &Sub{}) {
							act("new in "+s.name, func() { s.put(m, c.newSub(n, "")) })
						}
					}
				}
				if !saved && i > 0 && i < steps-1 {
					l = append(l, eop{"save", func() error { saved = true; return c.save(ctx) }})
				}
				k := x.Pick("operation", len(l)+1)
				if k == 0 {
					break
				}
				if x.Tracing {
					x.Tracef("--- %s", l[k-1].name)
				}
				if err := l[k-1].do(); err != nil {
					return err
				}
			}
			return nil
		}
		before := h.st.clone()
		c.exec(context.Background(), e)
		c.settle(before)
	}
}

// scnDirect creates and deletes up to three roots at once, through the engine,
// the repository or the container, with the engine's own IDs or given ones.
func scnDirect(x *explore.X) {
	cfg := ecfg{recursive: x.Pick("recursive", 2) == 1, ownIDs: x.Pick("IDs", 2) == 1}
	h := newEH(x, cfg)
	h.seed()
	e := h.engine()
	ids := map[string]string{}
	for round := 0; round < 2 && !h.bad; round++ {
		c := &erun{h: h, r: newRef(h), obj: map[string]ddd.IEntity{}}
		del := x.Pick("delete", 2) == 1
		ways := 4
		if del {
			ways = 3
		}
		way := x.Pick("way", ways)
		var l []ddd.IEntity
		n := x.Pick("roots", 4)
		for i := 0; i < n; i++ {
			again := 0
			if i > 0 && round == 0 {
				again = x.Pick("the same again", 2)
			}
			switch {
			case again == 1:
				l = append(l, l[i-1])
			case del:
				id := []string{"r1", "r4", "r2"}[(i+round)%3]
				r := &Root{}
				if _, in := c.r.rows["Root/"+id]; !in {
					// deleting what is gone succeeds
					r.SetID(id)
					h.name(r, id)
				} else {
					h.fill(r, c.r.rows["Root/"+id])
					if kid := map[string]string{"r1": "k1", "r4": "k6", "r2": "k4"}[id]; x.Pick("with a kid", 2) == 1 {
						if w, in := c.r.rows["Kid/"+kid]; in {
							k := &Kid{}
							h.fill(k, w)
							r.Kids = append(r.Kids, k)
						}
					}
				}
				l = append(l, r)
			default:
				name := fmt.Sprint("n", round, i)
				switch x.Pick("root", 3) {
				case 0:
					l = append(l, c.newRoot(name, ""))
				case 1:
					l = append(l, c.newRoot(name, "", c.newKid("k"+name, "", c.newSub("s"+name, ""), c.newSub("t"+name, "")), c.newKid("l"+name, "own"+name)))
				case 2:
					l = append(l, c.newRoot(name, "own"+name, c.newKid("k"+name, "")))
				}
			}
		}
		given := append([]ddd.IEntity{}, l...)
		for _, r := range l {
			switch {
			case !del:
				c.refAdd(r)
			case c.r.gone[r] || c.r.p[r] != nil:
				c.r.misuse = "root removed twice"
			default:
				c.r.control(r, nil)
			}
		}
		before := h.st.clone()
		if way == 0 {
			c.final = c.r.plan()
			h.run, c.start, c.ended = c, len(h.calls), true
			if del {
				c.res = e.Delete(context.Background(), l...)
			} else {
				c.res = e.Create(context.Background(), l...)
			}
			h.run = nil
		} else {
			if way == 3 {
				c.form = "cmd"
			}
			c.body = func(ctx context.Context, c *erun) error {
				switch {
				case way == 1 && del:
					c.repo.Remove(l...)
				case way == 1:
					c.repo.Add(l...)
				}
				for _, r := range l {
					switch {
					case way == 2 && del:
						c.repo.Remove(r)
					case way == 2:
						c.repo.Add(r)
					case way == 3:
						c.cont.Add(r)
					}
				}
				return nil
			}
			c.exec(context.Background(), e)
		}
		for i := range l {
			if l[i] != given[i] {
				h.fail("arguments", "the caller's list of roots was changed")
			}
		}
		c.settle(before)
		if h.bad || c.res.Error != nil {
			return
		}
		for _, r := range c.final.ins {
			if o, in := ids[r.GetID()]; in {
				h.fail("id-reused", "%s and %s got the same ID", h.label(r), o)
			}
			ids[r.GetID()] = h.label(r)
		}
	}
}

// scnContainer gives Act the roots Build returned, up to three of them, and
// removes, marks or leaves each while going through the list.
func scnContainer(x *explore.X) {
	h := newEH(x, ecfg{recursive: x.Pick("recursive", 2) == 1})
	h.seed()
	e := h.engine()
	c := &erun{h: h, r: newRef(h), form: "cmd", obj: map[string]ddd.IEntity{}}
	ids := []string{"r1", "r2", "r4"}
	var built []ddd.IEntity
	c.load = func(ctx context.Context, c *erun) error {
		n := x.Pick("roots", 4)
		// a list with room left, as append makes them
		c.roots = make([]ddd.IEntity, 0, 8)
		for i := 0; i < n; i++ {
			if err := c.buildDeep(ctx, ids[i]); err != nil {
				return err
			}
		}
		built = append(built, c.roots...)
		return nil
	}
	c.body = func(ctx context.Context, c *erun) error {
		if len(c.acted) != len(built) {
			h.fail("roots", "Act was given %d roots, Build returned %d", len(c.acted), len(built))
			return nil
		}
		for i, r := range c.acted {
			if r != built[i] {
				h.fail("roots", "root %d given to Act is %s, Build returned %s", i, h.label(r), h.label(built[i]))
				return nil
			}
			switch x.Pick("fate", 5) {
			case 1:
				c.remove(r)
			case 2:
				c.mark(r)
			case 3:
				c.remove(r)
				c.add(c.newRoot(fmt.Sprint("new", i), "", c.newKid(fmt.Sprint("kid", i), "")))
			case 4:
				if k := r.(*Root).Kids; len(k) > 0 {
					detach(k[0], r)
				}
			}
		}
		if x.Pick("save", 2) == 1 {
			if err := c.save(ctx); err != nil {
				return err
			}
		}
		for i, r := range c.acted {
			if r != built[i] {
				h.fail("roots", "root %d given to Act became %s, Build returned %s", i, h.label(r), h.label(built[i]))
				return nil
			}
			if c.r.has(r) && x.Pick("then", 2) == 1 {
				c.remove(r)
			}
		}
		return nil
	}
	before := h.st.clone()
	c.exec(context.Background(), e)
	c.settle(before)
}
