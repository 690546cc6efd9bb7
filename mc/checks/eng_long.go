package checks

import (
	"context"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
	"verif/mc/world"
)

// scnLong runs many commands of two alternating kinds on one engine: what one
// of them leaves behind in the engine shows up later.
func scnLong(sizes, hooks []int, opts, ends []string) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, world.Config{MaxSteps: 1000000}, func(w *world.World) {
			s := newCsys(x, w)
			n := sizes[x.Pick("runs", len(sizes))]
			s.nhook = hooks[x.Pick("hooks", len(hooks))]
			eopts := []ddd.Option{ddd.WithLogger(discard), ddd.WithIDGenerator(&cids{s, "std"}), ddd.WithEventBus(&cbus{s, "std"}), ddd.WithEventPersist(s.persist("std"))}
			for i := 0; i < s.nhook; i++ {
				eopts = append(eopts, ddd.WithPostSave(s.post(fmt.Sprintf("engine%d", i))))
			}
			s.eng = ddd.NewEngine(&clock{s, "std"}, &cexec{s, "std"}, eopts...)
			forms := []string{"fn", "main", "cmd", "stage"}
			form := []string{forms[x.Pick("form", len(forms))], "main"}
			opt := []string{cOpts[x.Pick("option", len(cOpts))], opts[x.Pick("other option", len(opts))]}
			end := []string{"", ends[x.Pick("other end", len(ends))]}
			every := 2
			if x.Pick("often", 2) == 1 { // the first kind is rare
				every = 11
			}
			if opt[1] == "notx" && end[1] != "" {
				return
			}
			for i := 0; i < n; i++ {
				k := 1
				if i%every == 0 {
					k = 0
				}
				// longer and shorter lists of keys, shared with the neighbours
				keys := []string{"k1", "k0", "k3", "k2", "k4"}[:1+i%5]
				r := s.run(fmt.Sprintf("R%04d", i), form[k], opt[k], keys...)
				r.end = end[k]
			}
			s.p.Go("runs", func() {
				for _, r := range s.runs {
					r.start(context.Background())
				}
			})
			w.Loop(time.Minute, func() bool { return w.Tasks() == 0 })
			if w.Tasks() > 0 {
				x.Failf("stuck", "a command never finished")
				return
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			for _, r := range s.runs {
				if !s.bad {
					r.verify(s.rows)
				}
			}
			x.Outcome("%d %v %v %v", n, form, opt, end)
		})
	}
}

func init() {
	extend("C11", &explore.Scenario{Name: "iso-long", Doc: "up to 130 runs of two kinds, one after the other", Run: scnLong([]int{9, 130}, []int{0, 3, 33}, []string{"none", "hook", "notx"}, []string{"", "error", "panic"})})
}
