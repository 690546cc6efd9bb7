package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// Commands of several engines, each with an executor of its own, inside one
// another: every command keeps to its own transaction, so what one of them
// stores depends on its own outcome only.

// twoCmd is a command and the commands that run inside it.
type twoCmd struct {
	eng    int
	note   string
	tx     bool
	end    string
	save   bool // mid-command save before the inner commands
	inner  []*twoCmd
	err    error
	brk    bool
	ran    bool
	parent *twoCmd
}

var errTwo = errors.New("user error")

func (c *twoCmd) success() bool { return c.ran && c.err == nil && !c.brk && c.end != "panic" }

// stored tells whether the command's row has to be there, seen by a command
// that runs inside of it (saved is then as far as it got).
func (c *twoCmd) stored() bool {
	if c.tx {
		return c.success()
	}
	return c.ran && (c.success() || c.save)
}

func (c *twoCmd) run(ctx context.Context, x *explore.X, engs []*ddd.Engine, all *[]*twoCmd) {
	defer func() {
		if p := recover(); p != nil && fmt.Sprint(p) != "user panic" {
			panic(p)
		}
	}()
	*all = append(*all, c)
	var opts []ddd.Option
	if !c.tx {
		opts = append(opts, ddd.WithoutTransaction)
	}
	c.ran = true
	res := engs[c.eng].Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
		n := &noteEntity{Text: "by " + c.note}
		n.SetID(c.note)
		repo.Add(n)
		// what other commands have not committed is not there
		for p := c.parent; p != nil; p = p.parent {
			o := &noteEntity{}
			o.SetID(p.note)
			err := repo.Get(ctx, o)
			want := !p.tx && p.save
			if (err == nil) != want || err != nil && !errors.Is(err, ddd.ErrEntityNotFound) {
				x.Failf("read", "%s read the row of the unfinished %s (transaction %v, saved %v): %v", c.note, p.note, p.tx, p.save, err)
			}
		}
		if c.save {
			if err := repo.Save(ctx); err != nil {
				return err
			}
		}
		for _, i := range c.inner {
			i.run(ctx, x, engs, all)
		}
		switch c.end {
		case "error":
			return errTwo
		case "break":
			return ddd.ErrBreak
		case "panic":
			panic("user panic")
		}
		return nil
	}, opts...)
	c.err, c.brk = res.Error, res.Break
	if (c.end == "error") != errors.Is(res.Error, errTwo) || c.end != "error" && res.Error != nil {
		x.Failf("result", "%s (ends with %q) reported %v", c.note, c.end, res.Error)
	}
}

func scnTwoEngines(x *explore.X) {
	world.Run(x, world.Config{}, func(w *world.World) {
		w.AddModels(&notePO{})
		w.Setup(func() {
			var engs []*ddd.Engine
			for i := 0; i < 3; i++ {
				p := w.NewProc(fmt.Sprintf("P%d", i))
				engs = append(engs, ddd.NewEngine(nil, exmysql.NewExecutor(p.DB), ddd.WithLogger(discard)))
			}
			// all commands on one engine (with a transaction each), or each on
			// an engine of its own
			same := x.Pick("engines", 2) == 1
			pick := func(name string, eng int, parent *twoCmd) *twoCmd {
				if same {
					eng = 0
				}
				return &twoCmd{note: name, eng: eng, parent: parent,
					tx:   same || x.Pick("transaction of "+name, 2) == 0,
					end:  []string{"", "error", "break", "panic"}[x.Pick("end of "+name, 4)],
					save: x.Pick("save in "+name, 2) == 1}
			}
			a := pick("a", 0, nil)
			b := pick("b", 1, a)
			a.inner = append(a.inner, b)
			switch x.Pick("third", 3) {
			case 1: // a { b, c }
				a.inner = append(a.inner, pick("c", 2, a))
			case 2: // a { b { c } }
				b.inner = append(b.inner, pick("c", 2, b))
			}
			var all []*twoCmd
			a.run(context.Background(), x, engs, &all)
			got := map[string]bool{}
			for _, r := range w.DB.Rows("note") {
				got[fmt.Sprint(r["id"])] = true
			}
			var l []string
			for _, c := range all {
				if got[c.note] != c.stored() {
					x.Failf("storage", "the row of %s (engine %d, transaction %v, ends with %q, saved %v, inside %v) is stored: %v", c.note, c.eng, c.tx, c.end, c.save, c.parent != nil, got[c.note])
				}
				delete(got, c.note)
				l = append(l, fmt.Sprintf("%s %v", c.note, c.stored()))
			}
			if len(got) > 0 {
				x.Failf("storage", "unexpected rows %v", got)
			}
			if n := w.DB.ActiveTx(); n > 0 {
				x.Failf("open", "%d transactions are open after the commands", n)
			}
			sort.Strings(l)
			x.StepStr(strings.Join(l, ","))
			x.Outcome("%s", strings.Join(l, ","))
		})
	})
}
