package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"
)

// ref is the reference semantics of a command: what storage has to hold after
// each save, worked out from the entities' in-memory trees only.
type ref struct {
	h       *eh
	rows    map[string]row         // expected content in the command's view
	p       map[ddd.IEntity]*pinfo // stored entities under the command's control
	roots   []ddd.IEntity          // roots under the command's control
	gone    map[ddd.IEntity]bool   // removed from storage or no longer managed
	tainted map[ddd.IEntity]bool   // changed without being marked
	dirty   map[ddd.IEntity]bool
	misuse  string               // the command has to fail
	part    map[ddd.IEntity]bool // entities whose events have to be sent
	hooks   []string             // hooks expected so far (unordered within a save)
	maybe   map[string]bool      // hooks that may or may not run
	plans   []plan
}

type pinfo struct {
	parent ddd.IEntity // nil for roots
	row    row
}

type plan struct {
	ins, upd, del []ddd.IEntity
	open          []ddd.IEntity // may be deleted or not
	lost          []ddd.IEntity // no longer managed, stays in storage
	parent        map[ddd.IEntity]ddd.IEntity
	reach         []ddd.IEntity
	bad           string
}

func newRef(h *eh) *ref {
	r := &ref{h: h, rows: map[string]row{}, p: map[ddd.IEntity]*pinfo{}, gone: map[ddd.IEntity]bool{}, tainted: map[ddd.IEntity]bool{}, dirty: map[ddd.IEntity]bool{}, part: map[ddd.IEntity]bool{}, maybe: map[string]bool{}}
	for k, v := range h.st.rows {
		r.rows[k] = v
	}
	return r
}

// loaded puts a loaded aggregate under control.
func (r *ref) loaded(root ddd.IEntity) {
	r.roots = append(r.roots, root)
	r.control(root, nil)
}

func (r *ref) control(e, parent ddd.IEntity) {
	r.p[e] = &pinfo{parent, rowOf(e, parent)}
	for _, c := range kidsOf(e) {
		r.control(c, e)
	}
}

func (r *ref) has(e ddd.IEntity) bool {
	for _, o := range r.roots {
		if o == e {
			return true
		}
	}
	return false
}

func (r *ref) drop(e ddd.IEntity) {
	for i, o := range r.roots {
		if o == e {
			r.roots = append(append([]ddd.IEntity{}, r.roots[:i]...), r.roots[i+1:]...)
			return
		}
	}
}

// plan works out what a save has to do.
func (r *ref) plan() plan {
	pl := plan{parent: map[ddd.IEntity]ddd.IEntity{}}
	seen := map[ddd.IEntity]bool{}
	var walk func(e, parent ddd.IEntity)
	walk = func(e, parent ddd.IEntity) {
		if seen[e] {
			pl.bad = "one entity at two places: " + r.h.label(e)
			return
		}
		seen[e] = true
		pl.parent[e] = parent
		pl.reach = append(pl.reach, e)
		for _, c := range kidsOf(e) {
			walk(c, e)
		}
	}
	for _, e := range r.roots {
		walk(e, nil)
	}
	for _, e := range pl.reach {
		i, in := r.p[e]
		if !in {
			pl.ins = append(pl.ins, e)
		} else if r.dirty[e] || i.parent != pl.parent[e] {
			pl.upd = append(pl.upd, e)
		}
	}
	var out []ddd.IEntity
	for e := range r.p {
		if !seen[e] {
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return r.h.label(out[i]) < r.h.label(out[j]) })
	for _, e := range out {
		i := r.p[e]
		switch {
		case r.h.cfg.recursive, i.parent == nil, seen[i.parent]:
			pl.del = append(pl.del, e)
		case attached(e, i.parent):
			pl.lost = append(pl.lost, e)
		default:
			pl.open = append(pl.open, e)
		}
	}
	return pl
}

func attached(e, parent ddd.IEntity) bool {
	for _, c := range kidsOf(parent) {
		if c == e {
			return true
		}
	}
	return false
}

// saved applies a plan after the engine did the same.  view is the storage now.
func (r *ref) saved(pl plan, view *store) {
	r.plans = append(r.plans, pl)
	hk := func(kind string, l []ddd.IEntity) {
		for _, e := range l {
			if phantom(e) {
				continue
			}
			r.hooks = append(r.hooks, "Before"+kind+" "+r.h.label(e), "After"+kind+" "+r.h.label(e))
		}
	}
	hk("Create", pl.ins)
	hk("Update", pl.upd)
	hk("Delete", pl.del)
	for _, e := range pl.open {
		r.maybe["BeforeDelete "+r.h.label(e)] = true
		r.maybe["AfterDelete "+r.h.label(e)] = true
		r.part[e] = true
	}
	for _, e := range pl.reach {
		r.part[e] = true
	}
	for _, e := range pl.del {
		if !phantom(e) {
			delete(r.rows, r.p[e].row.key())
		}
		r.part[e] = true
		r.gone[e] = true
		delete(r.p, e)
	}
	for _, e := range pl.open {
		k := r.p[e].row.key()
		if _, in := view.rows[k]; !in && !phantom(e) {
			delete(r.rows, k)
		}
		r.gone[e] = true
		delete(r.p, e)
	}
	for _, e := range pl.lost {
		r.part[e] = true
		r.gone[e] = true
		delete(r.p, e)
	}
	for _, e := range pl.ins {
		n := rowOf(e, pl.parent[e])
		if n.id == "" {
			r.h.fail("no-id", "the new entity %s has no ID after the save", r.h.label(e))
		}
		if _, in := r.rows[n.key()]; in {
			r.h.fail("id-reused", "the new entity %s got the ID of another one (%s)", r.h.label(e), n.id)
		}
		if !phantom(e) {
			r.rows[n.key()] = n
		}
	}
	for _, e := range pl.upd {
		if phantom(e) {
			continue
		}
		r.rows[r.p[e].row.key()] = rowOf(e, pl.parent[e])
	}
	for _, e := range pl.reach {
		r.p[e] = &pinfo{pl.parent[e], rowOf(e, pl.parent[e])}
	}
	r.dirty = map[ddd.IEntity]bool{}
}

// ---- command runs

// erun is one command run.
type erun struct {
	h       *eh
	r       *ref
	name    string
	form    string // fn, main, cmd, stage
	keys    []string
	repo    *ddd.Repository
	cont    *ddd.RootContainer
	cmd     *ddd.Command
	build   *ddd.DomainBuilder
	body    func(ctx context.Context, c *erun) error // Main or Act
	load    func(ctx context.Context, c *erun) error // Build (form cmd)
	roots   []ddd.IEntity                            // what Build returns
	init    func() error
	opts    []ddd.Option
	res     *ddd.Result
	pan     interface{}
	tx      *etx // view of the run
	posts   int
	start   int
	obj     map[string]ddd.IEntity
	ended   bool // the body returned nil
	final   plan
	spoiled bool  // the program misused the tree
	err     error // what the body returned
	agent   *ddd.StageAgent
	outs    int           // outputs set so far
	noOut   bool          // the last one was nil
	acted   []ddd.IEntity // the roots given to Act
}

// output sets the result of the command, or does not.
func (c *erun) output(at string) {
	if !c.h.cfg.outs || c.agent == nil && c.cmd == nil {
		return
	}
	kinds := 2
	if c.outs > 0 && !c.noOut {
		kinds = 3 // take it back
	}
	o := c.h.x.Pick("output in "+at, kinds)
	if o == 0 {
		return
	}
	c.outs++
	c.noOut = o == 2
	if v := c.out(); c.agent != nil {
		c.agent.Output(v)
	} else {
		c.cmd.Output(v)
	}
}

// out is the output set last.
func (c *erun) out() interface{} {
	if c.outs == 0 || c.noOut {
		return nil
	}
	return fmt.Sprintf("output %d of %s", c.outs, c.name)
}

func (c *erun) view() *store {
	if c.tx != nil {
		return c.tx.view
	}
	return c.h.st
}

// mainCmd is a command with the main form.
type mainCmd struct{ c *erun }

func (m *mainCmd) SetStage(s ddd.StageAgent)                  { m.c.agent = &s }
func (m *mainCmd) Init(ctx context.Context) ([]string, error) { return m.c.doInit() }
func (m *mainCmd) Main(ctx context.Context, repo *ddd.Repository) error {
	return m.c.doMain(ctx, repo)
}
func (m *mainCmd) PostSave(ctx context.Context, res *ddd.Result) { m.c.post(res) }

// actCmd is a command with the build/act form.
type actCmd struct {
	ddd.Command
	c *erun
}

func (m *actCmd) Init(ctx context.Context) ([]string, error) {
	m.c.cmd = &m.Command
	return m.c.doInit()
}
func (m *actCmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	c := m.c
	c.tx, _ = ctx.Value(txKeyT{c.h}).(*etx)
	c.build = &b
	if err := c.h.user("build", c.name); err != nil {
		c.err = err
		return nil, err
	}
	if c.load != nil {
		if err := c.load(ctx, c); err != nil {
			c.err = err
			return nil, err
		}
	}
	c.output("build")
	return c.roots, nil
}
func (m *actCmd) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	c := m.c
	c.cont = &cont
	c.acted = roots
	c.output("act")
	c.err = c.body(ctx, c)
	c.output("the end of act")
	if c.err == nil {
		c.ended = true
		c.final = c.r.plan()
	}
	return c.err
}
func (m *actCmd) PostSave(ctx context.Context, res *ddd.Result) { m.c.post(res) }

func (c *erun) doInit() ([]string, error) {
	if err := c.h.user("init", c.name); err != nil {
		c.err = err
		return nil, err
	}
	if c.init != nil {
		if err := c.init(); err != nil {
			c.err = err
			return nil, err
		}
	}
	c.output("init")
	return c.keys, nil
}

func (c *erun) doMain(ctx context.Context, repo *ddd.Repository) error {
	c.tx, _ = ctx.Value(txKeyT{c.h}).(*etx)
	c.repo = repo
	c.output("main")
	c.err = c.body(ctx, c)
	c.output("the end of main")
	if c.err == nil {
		c.ended = true
		c.final = c.r.plan()
	}
	return c.err
}

func (c *erun) post(res *ddd.Result) {
	c.h.rec(ecall{what: "post", arg: c.name, ptr: res, sum: resultStr(res)})
}

// exec runs the command to its end.
func (c *erun) exec(ctx context.Context, e *ddd.Engine) {
	h := c.h
	if c.obj == nil {
		c.obj = map[string]ddd.IEntity{}
	}
	prev := h.run
	h.run = c
	c.start = len(h.calls)
	defer func() { h.run = prev }()
	defer func() {
		if r := recover(); r != nil {
			if strings.Contains(fmt.Sprintf("%T", r), "Diverged") {
				panic(r)
			}
			c.pan = r
			h.rec(ecall{what: "panic", arg: fmt.Sprint(r)})
		}
	}()
	opts := append(h.runOpts(), c.opts...)
	switch c.form {
	case "", "fn":
		c.res = e.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error { return c.doMain(ctx, repo) }, opts...)
	case "mainfunc":
		c.res = e.Run(ctx, ddd.MainFunc(c.doMain), opts...)
	case "stage":
		c.res = e.NewStage().WithOption(opts...).Lock(c.keys...).Main(c.doMain).Save(ctx)
	case "main":
		c.res = e.Run(ctx, &mainCmd{c}, opts...)
	case "cmd":
		c.res = e.Run(ctx, &actCmd{c: c}, opts...)
	case "cmd-old":
		c.res = e.RunCommand(ctx, &actCmd{c: c}, opts...)
	}
	h.rec(ecall{what: "return", arg: c.name, err: c.res.Error})
}

// ---- operations

var errMisused = errors.New("misuse reported")

func (c *erun) newRoot(label, id string, kids ...*Kid) *Root {
	n := &Root{core: core{A: 5, B: 5}, Kids: kids}
	if id != "" {
		n.SetID(c.h.idOf(id))
	}
	c.h.name(n, label)
	c.obj[label] = n
	return n
}

func (c *erun) newKid(label, id string, subs ...*Sub) *Kid {
	n := &Kid{core: core{A: 6, B: 6}, Subs: subs}
	if id != "" {
		n.SetID(c.h.idOf(id))
	}
	c.h.name(n, label)
	c.obj[label] = n
	return n
}

func (c *erun) newSub(label, id string) *Sub {
	n := &Sub{core: core{A: 7, B: 7}}
	if id != "" {
		n.SetID(c.h.idOf(id))
	}
	c.h.name(n, label)
	c.obj[label] = n
	return n
}

func (c *erun) newSolo(label string) *Solo {
	n := &Solo{core: core{A: 8, B: 8}}
	c.h.name(n, label)
	c.obj[label] = n
	return n
}

func (c *erun) newTag(label string) *Tag {
	n := &Tag{core: core{A: 9, B: 9}}
	c.h.name(n, label)
	c.obj[label] = n
	return n
}

// note registers the loaded entities of a tree by ID.
func (c *erun) note(e ddd.IEntity) {
	l := c.h.labelOf(e)
	c.obj[l] = e
	c.h.ents[e] = l
	for _, k := range kidsOf(e) {
		c.note(k)
	}
}

// checkLoaded compares a loaded tree (down to depth) with the rows expected.
func (c *erun) checkLoaded(e, parent ddd.IEntity, depth int, tags bool) {
	want, in := c.r.rows[rowOf(e, parent).key()]
	if !in || want != rowOf(e, parent) {
		c.h.fail("wrong-load", "%s was loaded as %+v, stored is %+v", e.GetID(), rowOf(e, parent), want)
	}
	if depth == 0 {
		return
	}
	have := map[string]bool{}
	for _, k := range kidsOf(e) {
		if have[rowOf(k, e).key()] {
			c.h.fail("wrong-load", "%s has child %s twice", e.GetID(), k.GetID())
		}
		have[rowOf(k, e).key()] = true
		c.checkLoaded(k, e, depth-1, tags)
	}
	for k, w := range c.r.rows {
		if w.parent == e.GetID() && (w.typ == "Sub") == (typeName(e) == "Kid" || phantom(e)) && !have[k] && (w.typ != "Tag" || tags) {
			c.h.fail("wrong-load", "child %s of %s was not loaded", k, e.GetID())
		}
	}
}

// get loads a root with its children through the repository (two levels).
func (c *erun) get(ctx context.Context, id string) error {
	r := &Root{}
	r.SetID(c.h.idOf(id))
	_, in := c.r.rows["Root/"+r.GetID()]
	if err := c.repo.Get(ctx, r, &r.Kids, &r.Solo); err != nil {
		if !in && errors.Is(err, ddd.ErrEntityNotFound) {
			c.obj[id] = &Memo{}
			return nil
		}
		return err
	}
	if !in {
		c.h.fail("wrong-load", "a root that is not stored was loaded")
	}
	c.note(r)
	c.checkLoaded(r, nil, 1, false)
	c.r.loaded(r)
	return nil
}

// custom loads roots of all levels through CustomGet.
func (c *erun) custom(ctx context.Context, ids ...string) error {
	var es []ddd.IEntity
	for _, id := range ids {
		var e ddd.IEntity = &Root{}
		if id == "r3" {
			e = &Alt{}
		}
		e.SetID(c.h.idOf(id))
		if _, in := c.r.rows[typeName(e)+"/"+e.GetID()]; !in {
			c.obj[id] = &Memo{}
			continue
		}
		es = append(es, e)
	}
	if err := c.repo.CustomGet(ctx, func(ctx context.Context, roots ...ddd.IEntity) {
		for _, e := range roots {
			c.h.loadDeep(c.view(), e)
		}
	}, es...); err != nil {
		return err
	}
	for _, e := range es {
		c.note(e)
		c.r.loaded(e)
	}
	return nil
}

// buildDeep loads a root of all levels with the builder (form cmd).
func (c *erun) buildDeep(ctx context.Context, id string) error {
	r := &Root{}
	r.SetID(c.h.idOf(id))
	if _, in := c.r.rows["Root/"+r.GetID()]; !in {
		return nil
	}
	if err := c.build.Build(ctx, r, &r.Kids, &r.Solo); err != nil {
		return err
	}
	for _, k := range r.Kids {
		if err := c.build.Build(ctx, k, &k.Subs); err != nil {
			return err
		}
	}
	// the builder cannot fill maps
	for _, key := range c.view().order {
		if t := c.view().rows[key]; t.typ == "Tag" && t.parent == r.GetID() {
			n := &Tag{}
			c.h.fill(n, t)
			if r.Tags == nil {
				r.Tags = map[string]*Tag{}
			}
			r.Tags[t.id] = n
		}
	}
	c.note(r)
	c.checkLoaded(r, nil, 2, true)
	c.r.loaded(r)
	c.roots = append(c.roots, r)
	return nil
}

// refAdd tells the reference that a root is added.
func (c *erun) refAdd(e ddd.IEntity) {
	if c.r.has(e) || c.r.p[e] != nil {
		c.r.misuse = "root added twice"
	} else {
		c.r.roots = append(c.r.roots, e)
	}
}

func (c *erun) add(e ddd.IEntity) {
	c.refAdd(e)
	if c.cont != nil {
		c.cont.Add(e)
	} else {
		c.repo.Add(e)
	}
}

func (c *erun) remove(e ddd.IEntity) {
	if !c.r.has(e) {
		if c.r.p[e] != nil || c.r.gone[e] || c.cont != nil {
			c.r.misuse = "root removed that is not there"
		} else {
			// removed by ID without having been loaded
			c.r.control(e, nil)
		}
	} else {
		c.r.drop(e)
	}
	if c.cont != nil {
		c.cont.Remove(e)
	} else {
		c.repo.Remove(e)
	}
}

func (c *erun) mark(e ddd.IEntity) {
	b := e.(cored).base()
	b.A += 100
	e.Dirty()
	c.r.dirty[e] = true
}

// save saves in the middle of the command and compares the view.
func (c *erun) save(ctx context.Context) error {
	pl := c.r.plan()
	var err error
	if c.repo != nil {
		err = c.repo.Save(ctx)
	} else {
		err = c.cmd.Commit(ctx)
	}
	bad := pl.bad
	if c.repo != nil && c.r.misuse != "" {
		bad = c.r.misuse
	}
	if err != nil {
		if bad == "" && len(c.h.inj) == 0 {
			c.h.fail("save-error", "a save failed: %v", err)
		}
		return err
	}
	if bad != "" {
		c.h.fail("misuse-saved", "a save reported success although: %s", bad)
		return errMisused
	}
	c.h.rec(ecall{what: "saved"})
	if c.h.cfg.dry {
		c.r.dryRun(pl)
		return nil
	}
	c.r.saved(pl, c.view())
	if d := diffRows(c.view().rows, c.r.rows); d != "" {
		c.h.fail("storage", "after a save in the middle of the command: %s", d)
	}
	return nil
}

// dryRun follows a save that must not write.
func (r *ref) dryRun(pl plan) {
	rows := map[string]row{}
	for k, v := range r.rows {
		rows[k] = v
	}
	r.saved(pl, &store{rows: rows})
	r.rows = rows
}

// kid lookups used by the menus

func (c *erun) root(l string) *Root {
	if r, ok := c.obj[l].(*Root); ok && c.r.has(r) {
		return r
	}
	return nil
}

func (c *erun) alt(l string) *Alt {
	if r, ok := c.obj[l].(*Alt); ok && c.r.has(r) {
		return r
	}
	return nil
}

// find returns a reachable entity and its parent.
func (c *erun) find(l string) (e, parent ddd.IEntity) {
	t := c.obj[l]
	if t == nil {
		return nil, nil
	}
	var walk func(x, p ddd.IEntity) bool
	walk = func(x, p ddd.IEntity) bool {
		if x == t {
			parent = p
			return true
		}
		for _, k := range kidsOf(x) {
			if walk(k, x) {
				return true
			}
		}
		return false
	}
	for _, r := range c.r.roots {
		if walk(r, nil) {
			return t, parent
		}
	}
	return nil, nil
}

func detach(e, parent ddd.IEntity) {
	switch p := parent.(type) {
	case *Root:
		switch k := e.(type) {
		case *Kid:
			var l []*Kid
			for _, o := range p.Kids {
				if o != k {
					l = append(l, o)
				}
			}
			p.Kids = l
		case *Solo:
			if p.Solo == k {
				p.Solo = nil
			}
		case *Memo:
			if p.Memo == k {
				p.Memo = nil
			}
		case *Tag:
			for n, o := range p.Tags {
				if o == k {
					delete(p.Tags, n)
				}
			}
		}
	case *Alt:
		var l []*Kid
		for _, o := range p.kids {
			if o != e {
				l = append(l, o)
			}
		}
		p.kids = l
	case *Kid:
		var l []*Sub
		for _, o := range p.Subs {
			if o != e {
				l = append(l, o)
			}
		}
		p.Subs = l
	case *Memo:
		var l []*Sub
		for _, o := range p.Subs {
			if o != e {
				l = append(l, o)
			}
		}
		p.Subs = l
	}
}

func attach(e, parent ddd.IEntity) {
	switch p := parent.(type) {
	case *Root:
		switch k := e.(type) {
		case *Kid:
			p.Kids = append(p.Kids, k)
		case *Solo:
			p.Solo = k
		case *Memo:
			p.Memo = k
		case *Tag:
			if p.Tags == nil {
				p.Tags = map[string]*Tag{}
			}
			n := k.m.label
			for p.Tags[n] != nil {
				n += "'"
			}
			p.Tags[n] = k
		}
	case *Alt:
		p.kids = append(p.kids, e.(*Kid))
	case *Kid:
		p.Subs = append(p.Subs, e.(*Sub))
	case *Memo:
		p.Subs = append(p.Subs, e.(*Sub))
	}
}
