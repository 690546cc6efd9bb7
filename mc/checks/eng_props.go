package checks

import (
	"fmt"
	"strings"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
)

// checkLocks is the oracle of C02.
func (c *erun) checkLocks() {
	h := c.h
	want := map[string]bool{}
	rep := false
	for _, k := range c.keys {
		if want[k] {
			rep = true
		}
		want[k] = true
	}
	held := map[*elk]bool{}
	var got []*elk
	failed, begun, body, txOpen, returned := false, false, false, false, false
	post := false
	for _, k := range h.calls[c.start:] {
		if k.run != c {
			continue
		}
		switch k.what {
		case "lock":
			if k.err != nil {
				failed = true
				continue
			}
			if begun || body {
				h.fail("lock-late", "a lock was acquired after the transaction or the logic had started")
			}
			l := k.obj.(*elk)
			for _, o := range got {
				if o.key == l.key {
					h.fail("lock-twice", "the lock %s was acquired twice", l.key)
				}
			}
			held[l] = true
			got = append(got, l)
		case "unlock":
			l := k.obj.(*elk)
			if !held[l] {
				h.fail("unlock-twice", "the lock %s was released although it was not held", l.key)
			}
			if txOpen {
				h.fail("unlock-early", "the lock %s was released before the transaction ended", l.key)
			}
			delete(held, l)
		case "begin":
			begun = true
			txOpen = k.err == nil
		case "commit", "rollback":
			txOpen = false
		case "main", "build":
			body = true
		case "return", "panic":
			returned = true
		case "post":
			post = true
			if len(held) > 0 {
				h.fail("post-locked", "a post-save callback ran while locks were held")
			}
		}
		if (k.what == "begin" || k.what == "main" || k.what == "build" || k.what == "exec" || k.what == "commit") && len(held) != len(want) {
			h.fail("not-locked", "%s ran with %d of %d locks held", k.what, len(held), len(want))
		}
	}
	_ = post
	if h.badUnlock != "" {
		h.fail("unlock-cancelled", "the release of %s was given a context that was cancelled, so it is still locked", h.badUnlock)
	}
	if returned && len(held) > 0 {
		h.fail("lock-leak", "%d locks are still held after the command returned", len(held))
	}
	inited := true // the keys became known
	for _, f := range h.inj {
		inited = inited && !strings.HasPrefix(f.at, "init")
	}
	if inited && (rep || failed) {
		if begun || body {
			h.fail("ran-unlocked", "the logic ran although a lock could not be acquired or a key was repeated")
		}
		if c.pan == nil && (c.res == nil || c.res.Error == nil) {
			h.fail("no-lock-error", "no error although a lock could not be acquired or a key was repeated")
		}
	}
	// every key has its own lock
	if !rep && !failed && body {
		for _, k := range c.keys {
			n := 0
			for _, l := range got {
				if strings.HasSuffix(l.key, k) {
					n++
				}
			}
			if n == 0 {
				h.fail("wrong-key", "no lock was acquired for key %s", k)
			}
		}
	}
	for _, l := range got {
		if l.released != 1 {
			h.fail("unlock-count", "the lock %s was released %d times", l.key, l.released)
		}
	}
}

// checkConfirm is the oracle of C09.
func (c *erun) checkConfirm() {
	h := c.h
	var begun interface{}
	begins, confirms, cancels := 0, 0, 0
	committed, commitFailed, rolled := false, false, false
	plain := 0
	for _, k := range h.calls[c.start:] {
		if k.run != c {
			continue
		}
		switch k.what {
		case "txbegin":
			if k.err != nil {
				continue
			}
			begins++
			begun = k.obj
			if committed || rolled {
				h.fail("begin-late", "transactional events were announced after the transaction had ended")
			}
		case "dispatch":
			for _, e := range k.evts {
				if e.SendType == ddd.SendTypeTransaction && h.cfg.bus == "tx" && !h.cfg.noTx {
					h.fail("tx-plain", "a transactional event took the plain path")
				}
			}
			plain++
		case "commit":
			if k.err == nil {
				committed = true
			} else {
				commitFailed = true
			}
		case "rollback":
			rolled = true
		case "txcommit":
			confirms++
			if !committed {
				h.fail("confirm-early", "transactional events were confirmed without a committed transaction")
			}
			if k.obj != begun {
				h.fail("confirm-context", "the confirmation did not get the context of the announcement")
			}
		case "txrollback":
			cancels++
			if committed {
				h.fail("cancel-committed", "transactional events of a committed command were cancelled")
			}
			if commitFailed {
				h.fail("cancel-unknown", "transactional events were cancelled although the outcome of the commit is not known")
			}
			if !rolled {
				h.fail("cancel-early", "transactional events were cancelled before the rollback")
			}
			if begins > 0 && k.obj != begun {
				h.fail("cancel-context", "the cancellation did not get the context of the announcement")
			}
		}
	}
	if begins > 1 {
		h.fail("begin-twice", "transactional events were announced %d times", begins)
	}
	if confirms > 1 || cancels > 1 {
		h.fail("ended-twice", "transactional events were confirmed %d times and cancelled %d times", confirms, cancels)
	}
	if begins == 1 && committed && confirms != 1 {
		h.fail("not-confirmed", "the command committed but its transactional events were not confirmed")
	}
	if begins == 1 && c.pan == nil && !committed && !commitFailed && cancels != 1 {
		h.fail("not-cancelled", "the command was rolled back but its transactional events were not cancelled")
	}
	if begins == 0 && confirms > 0 {
		h.fail("confirm-nothing", "a confirmation without an announcement")
	}
	if plain > 1 {
		h.fail("plain-twice", "plain events were handed over %d times", plain)
	}
}

// vetoed is the oracle of C10 for runs with failing hooks.
func (c *erun) vetoed(before *store) {
	if f := c.cause(); f != nil && strings.HasPrefix(f.at, "hook") && strings.Contains(f.at, "Before") {
		for i := len(c.h.calls) - 1; i >= c.start; i-- {
			k := c.h.calls[i]
			if k.what == "saved" || k.what == "hook" && strings.HasSuffix(f.at, k.arg) {
				break
			}
			if k.what == "exec" {
				c.h.fail("veto-late", "%s was executed although %s", k.arg, f)
			}
		}
	}
}

func init() {
	lists := [][]string{{"a", "b"}}
	busses := func(x *explore.X, c *ecfg) {
		c.bus = []string{"tx", "plain"}[x.Pick("bus", 2)]
		c.persist = x.Pick("event store", 2) == 1
	}
	calls := func(what string) bool { return what != "entity2model" && what != "model2entity" && what != "unlock" }
	user := func(what string) bool {
		switch what {
		case "begin", "commit", "rollback", "exec", "unlock":
			return false
		}
		return calls(what)
	}
	memExec := "in-memory executor that follows the documented contract, with snapshot isolation"
	add(&explore.Property{
		ID: "C01", Title: "a command is all-or-nothing",
		Rule:        "six representative programs (create, change, move, delete, saves in the middle) and every free program of up to two operations, in all command forms; every backend call and user callback fails (error, break, panic) in turn and, to the stated bound, in pairs",
		Assumptions: []string{memExec, "a failing commit has not taken effect (lost acknowledgements are covered for the database stack in C16 and C20)"},
		Scenarios: []*explore.Scenario{
			{Name: "tx-forms", Doc: "all forms and programs, one or two failures", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true}, evs: "all", keys: lists, cfgs: busses}), Quick: 2, Thorough: 3},
			{Name: "tx-kinds", Doc: "failures reported with well-known errors, bare and wrapped", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, kinds: true}, evs: "all", forms: []string{"main", "cmd"}, keys: lists, progs: []string{"change", "saves"}, cfgs: busses}), Quick: 1, Thorough: 2},
			{Name: "tx-panics", Doc: "storage, locks, conversions and generators panic", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, panics: true}, evs: "all", forms: []string{"main", "cmd"}, keys: lists, cfgs: busses}), Quick: 1, Thorough: 2},
			{Name: "tx-cancel", Doc: "the caller's context is cancelled at any call", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, cancel: true}, evs: "all", keys: lists, progs: []string{"create", "change", "saves"}, cfgs: busses}), Quick: 2, Thorough: 3},
			{Name: "tx-pairs", Doc: "pairs of failures", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, bus: "tx", faultAt: calls}, evs: "all", forms: []string{"main", "cmd"}, keys: lists, progs: []string{"change", "saves"}}), Quick: 3, Thorough: 4},
			{Name: "tx-rec", Doc: "recursive delete", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, recursive: true, bus: "tx"}, evs: "all", forms: []string{"main", "cmd"}, progs: []string{"delete", "change", "mixed"}}), Quick: 2, Thorough: 3},
			{Name: "tx-free", Doc: "free programs with one failure", Run: scnFree(evSpec{cfg: ecfg{faults: true, hookFaults: true, faultAt: calls}, prelude: []string{"", "r1"}, depth: 3, opts: menuOpts{load: true, add: true, remove: true, mark: true, del: true, grow: true, move: true, save: true, small: true}}), Quick: 1, Thorough: 2},
			{Name: "tx-sql", Doc: "over the database: statements, starts and commits of transactions fail, the context is cancelled", Run: scnSQLFault(ecfg{faults: true, hookFaults: true, sql: true, cancel: true, faultAt: user}, []string{"main", "cmd"}, nil), Quick: 3, Thorough: 4},
			{Name: "tx-sql-kinds", Doc: "over the database, statements fail in every way: lock waits, deadlocks, lost connections", Run: scnSQLFault(ecfg{faults: true, sql: true, sqlKinds: true, faultAt: func(string) bool { return false }}, []string{"main", "cmd"}, nil), Quick: 1, Thorough: 2},
			{Name: "tx-sql-many", Doc: "over the database, changes of 5 or 12 (60, 130) entities at once", Run: scnSQLMass(ecfg{faults: true, hookFaults: true, sql: true, recursive: true, faultAt: user}, []string{"main", "cmd"}, []int{5, 12}), Quick: 1, Thorough: 1},
			{Name: "tx-sql-lots", Doc: "the same with up to 130", Run: scnSQLMass(ecfg{faults: true, sql: true, recursive: true, faultAt: user}, []string{"main"}, []int{60, 130}), Quick: 0, Thorough: 1},
			{Name: "tx-sql-rec", Doc: "over the database, recursive delete", Run: scnSQLFault(ecfg{faults: true, hookFaults: true, sql: true, cancel: true, recursive: true, faultAt: user}, []string{"main", "stage"}, []string{"delete", "change", "mixed"}), Quick: 3, Thorough: 4},
		},
	})
	long := strings.Repeat("aggregate/0123456789/", 30)
	keyLists := [][]string{nil, {"a"}, {"b", "a"}, {"c", "a", "b"}, {"b", "d", "a", "c"}, {"a", "a"}, {"b", "a", "b"}, {"a", "b", "b", "c"}, {"ab", "b"},
		{long + "2", long + "1"}, {long + "1", long + "1"}, {long, long + long}, {"A", "a"}, {"k", "K", "k"}, {"order-00000001", "order-00000002", "order-00000001"}, {"1", "01", "1"}, {"\u00e9", "e", "\u00e9"}, {"a", "a "}, {"a%", "a_"}, {""}, {"b", ""}}
	var manyKeys [][]string
	for _, n := range []int{9, 12, 13, 40, 130} {
		var up, mix, rep []string
		for i := 0; i < n; i++ {
			up = append(up, fmt.Sprintf("k%03d", i))
			mix = append(mix, fmt.Sprintf("k%d", (i*7+3)%n))
			rep = append(rep, fmt.Sprintf("k%d", i%(n-1)))
		}
		manyKeys = append(manyKeys, up, mix, rep)
	}
	add(&explore.Property{
		ID: "C02", Title: "command locks",
		Rule:        "nine key lists (0-4 keys, all kinds of repetitions), three command forms, with and without transactions; every lock, unlock, transaction step and callback fails in turn and in pairs",
		Assumptions: []string{"recording lock backend"},
		Scenarios: []*explore.Scenario{
			{Name: "locks", Doc: "with transactions", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, bus: "tx", faultAt: calls2}, evs: "all", forms: []string{"main", "cmd", "stage"}, keys: keyLists, progs: []string{"create", "saves"}, check: func(c *erun, _ *store) { c.checkLocks() }}), Quick: 3, Thorough: 4},
			{Name: "locks-many", Doc: "9 to 130 keys, all different or with a repetition", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, bus: "tx", faultAt: calls2}, evs: "all", forms: []string{"main", "cmd", "stage"}, keys: manyKeys, progs: []string{"create"}, check: func(c *erun, _ *store) { c.checkLocks() }}), Quick: 1, Thorough: 2},
			{Name: "locks-kinds", Doc: "failures reported with well-known errors, bare and wrapped", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, kinds: true, bus: "tx", faultAt: calls2}, evs: "all", forms: []string{"main", "cmd"}, keys: [][]string{{"b", "a"}, {"c", "a", "b"}}, progs: []string{"create"}, check: func(c *erun, _ *store) { c.checkLocks() }}), Quick: 1, Thorough: 2},
			{Name: "locks-panics", Doc: "storage, locks, conversions and generators panic", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, panics: true, bus: "tx"}, evs: "all", forms: []string{"main", "cmd", "stage"}, keys: [][]string{{"a"}, {"b", "a"}, {"c", "a", "b"}, {"a", "a"}}, progs: []string{"create", "saves"}, check: func(c *erun, _ *store) { c.checkLocks() }}), Quick: 2, Thorough: 3},
			{Name: "locks-cancel", Doc: "the caller's context is cancelled at any call", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, cancel: true, bus: "tx", faultAt: calls2}, evs: "all", forms: []string{"main", "cmd", "stage"}, keys: keyLists, progs: []string{"saves"}, check: func(c *erun, _ *store) { c.checkLocks() }}), Quick: 2, Thorough: 3},
			{Name: "locks-notx", Doc: "without transactions", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, bus: "plain", noTx: true, faultAt: calls2}, evs: "all", forms: []string{"main", "cmd"}, keys: keyLists, progs: []string{"change"}, check: func(c *erun, _ *store) { c.checkLocks() }}), Quick: 3, Thorough: 4},
		},
	})
	del := menuOpts{remove: true, del: true, move: true, grow: true, mark: true, save: true}
	delSmall := menuOpts{remove: true, del: true, move: true, grow: true, save: true, small: true}
	delAlike := del
	delAlike.alike = true
	delMemo := menuOpts{memo: true, remove: true, del: true, save: true, small: true}
	both := func(rec bool, pre []string, depth, extra int, o menuOpts) func(x *explore.X) {
		return func(x *explore.X) {
			var b *store
			scnFree(evSpec{cfg: ecfg{recursive: rec, memo: o.memo, alike: o.alike}, prelude: pre, depth: depth, extra: extra, opts: o, check: func(c *erun) {
				h := &eh{x: x, cfg: c.h.cfg, st: &store{rows: map[string]row{}}}
				h.seed()
				b = h.st
				c.deletes(b)
			}})(x)
		}
	}
	add(&explore.Property{
		ID: "C06", Title: "recursive delete",
		Rule:        "every program of up to the stated number of removals, detachments, moves, additions and saves over loaded aggregates of three levels, with recursive delete on and off",
		Assumptions: []string{memExec, "the stored subtree is what the command has loaded (or passed in) of it"},
		Scenarios: []*explore.Scenario{
			{Name: "del-rec", Doc: "recursive delete on", Run: both(true, []string{"r1", "r1r2", "r1r3", ""}, 3, 1, del), Thorough: 1},
			{Name: "del-rec-deep", Doc: "longer programs, fewer targets", Run: both(true, []string{"r1r2"}, 4, 1, delSmall), Thorough: 1},
			{Name: "del-alike", Doc: "entities of different types have the same IDs", Run: func(x *explore.X) {
				both(x.Pick("recursive", 2) == 1, []string{"r1", "r1r2", "r1r3"}, 3, 1, delAlike)(x)
			}, Thorough: 1},
			{Name: "del-memo", Doc: "stored children of an entity that is not stored", Run: func(x *explore.X) { both(x.Pick("recursive", 2) == 1, []string{"r1", "r1r2"}, 3, 1, delMemo)(x) }, Thorough: 1},
			{Name: "del-sql-many", Doc: "up to 1025 children, through the MySQL executor", Run: scnManyKinds(ecfg{sql: true, recursive: true}, manySizes[:30], 2, 3, 5)},
			{Name: "del-flat", Doc: "recursive delete off", Run: both(false, []string{"r1", "r1r2", ""}, 3, 1, del), Thorough: 1},
		},
	})
	add(&explore.Property{
		ID: "C07", Title: "dry run",
		Rule:        "representative programs in all forms with every call failing in turn, and every free program up to the stated length, with the dry-run option per engine and per run",
		Assumptions: []string{memExec},
		Scenarios: []*explore.Scenario{
			{Name: "dry-forms", Doc: "representative programs, failures", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, dry: true}, evs: "all", keys: lists, cfgs: func(x *explore.X, c *ecfg) {
				busses(x, c)
				c.dryPerRun = x.Pick("option", 2) == 1
				c.noTx = x.Pick("transactions", 2) == 1
			}, check: func(c *erun, b *store) {
				c.quiet(b)
				c.checkLocks()
				if !c.h.bad && c.ok() {
					c.r.dryRun(c.final)
					c.checkHooks()
				}
			}}), Quick: 1, Thorough: 2},
			{Name: "dry-free", Doc: "free programs", Run: func(x *explore.X) {
				scnFree(evSpec{cfg: ecfg{dry: true, dryPerRun: x.Pick("option", 2) == 1, bus: "pick", persist: true, recursive: x.Pick("recursive", 2) == 1}, prelude: []string{"", "r1", "get"}, depth: 3, extra: 1, opts: menuOpts{load: true, add: true, remove: true, mark: true, del: true, grow: true, move: true, save: true, small: true}, check: func(c *erun) {
					h := &eh{x: x, cfg: c.h.cfg, st: &store{rows: map[string]row{}}}
					h.seed()
					c.quiet(h.st)
				}})(x)
			}, Thorough: 1},
		},
	})
	evo := menuOpts{add: true, remove: true, mark: true, del: true, grow: true, move: true, save: true, events: true, small: true}
	evf := evo
	evf.mark, evf.move = false, false
	add(&explore.Property{
		ID: "C08", Title: "domain events are complete and ordered",
		Rule:        "every program of up to the stated number of operations, events and saves on a frozen and on a moving clock, plain and transactional buses, with and without an event store; every call failing in turn for representative programs",
		Assumptions: []string{memExec, "event IDs of one process are increasing (the 24-bit counter of xid does not wrap within the run)"},
		Scenarios: []*explore.Scenario{
			{Name: "events-free", Doc: "events on any entity at any time", Run: scnFree(evSpec{cfg: ecfg{bus: "pick", persist: true}, prelude: []string{"r1", "r1r2"}, depth: 3, extra: 1, opts: evo}), Thorough: 1},
			{Name: "events-del", Doc: "events of added and removed entities", Run: scnFree(evSpec{cfg: ecfg{bus: "plain", recursive: true}, prelude: []string{"", "r1"}, depth: 4, extra: 0, opts: evf}), Thorough: 1},
			{Name: "events-chatty", Doc: "events of every entity, moved, detached and removed", Run: func(x *explore.X) {
				scnFree(evSpec{cfg: ecfg{bus: "pick", persist: true, recursive: x.Pick("recursive", 2) == 1}, prelude: []string{"r1", "r1r2"}, depth: 3, extra: 1, chatty: true, opts: delSmall})(x)
			}, Thorough: 1},
			{Name: "events-alike", Doc: "the same, entities of different types have the same IDs", Run: func(x *explore.X) {
				scnFree(evSpec{cfg: ecfg{alike: true, bus: "pick", recursive: x.Pick("recursive", 2) == 1}, prelude: []string{"r1", "r1r2"}, depth: 3, extra: 1, chatty: true, opts: delSmall})(x)
			}, Thorough: 1},
			{Name: "events-types", Doc: "up to three events of every send type, alike or not", Run: scnEventTypes},
			{Name: "events-many", Doc: "up to 130 events", Run: scnEventsMany},
			{Name: "events-shapes", Doc: "events of every content, type and sender, empty ones among them", Run: scnEventShapes},
			{Name: "events-hooks", Doc: "events raised by hooks", Run: scnFree(evSpec{cfg: ecfg{bus: "pick", persist: true, hookEvents: true}, prelude: []string{"r1"}, depth: 2, extra: 1, opts: evo}), Thorough: 1},
			{Name: "events-errors", Doc: "failures reported with well-known errors, bare and wrapped", Run: scnFault(faultSpec{cfg: ecfg{faults: true, kinds: true}, evs: "all", forms: []string{"cmd"}, progs: []string{"create", "change"}, cfgs: func(x *explore.X, c *ecfg) {
				busses(x, c)
				c.noTx = x.Pick("transactions", 2) == 1
			}, check: func(c *erun, b *store) { c.failedEvents(b) }}), Quick: 1, Thorough: 1},
			{Name: "events-faults", Doc: "every call failing", Run: scnFault(faultSpec{cfg: ecfg{faults: true}, evs: "pick", forms: []string{"fn", "cmd"}, cfgs: func(x *explore.X, c *ecfg) {
				busses(x, c)
				c.noTx = x.Pick("transactions", 2) == 1
			}, check: func(c *erun, b *store) { c.failedEvents(b) }}), Quick: 1, Thorough: 1},
		},
	})
	add(&explore.Property{
		ID: "C09", Title: "transactional events are confirmed exactly on commit",
		Rule:        "representative programs raising every mix of up to three plain and transactional events, all bus kinds, with and without transactions; every call fails in turn and in pairs",
		Assumptions: []string{memExec},
		Scenarios: []*explore.Scenario{
			{Name: "confirm", Doc: "transaction-capable bus", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, bus: "tx", faultAt: calls}, evs: "pick", forms: []string{"fn", "main", "cmd"}, keys: lists, progs: []string{"nothing", "read", "create", "change", "saves", "delete"}, check: func(c *erun, _ *store) { c.checkConfirm() }}), Quick: 2, Thorough: 3},
			{Name: "confirm-pairs", Doc: "pairs of failures", Run: scnFault(faultSpec{cfg: ecfg{faults: true, bus: "tx", faultAt: calls}, evs: "pick", forms: []string{"main"}, progs: []string{"create"}, check: func(c *erun, _ *store) { c.checkConfirm() }}), Quick: 3, Thorough: 4},
			{Name: "confirm-errors", Doc: "failures reported with well-known errors, bare and wrapped", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, kinds: true, bus: "tx", faultAt: calls}, evs: "all", forms: []string{"main", "cmd"}, progs: []string{"change", "saves"}, check: func(c *erun, _ *store) { c.checkConfirm() }}), Quick: 1, Thorough: 2},
			{Name: "confirm-cancel", Doc: "the caller's context is cancelled at any call", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, cancel: true, bus: "tx", faultAt: calls}, evs: "all", forms: []string{"fn", "main", "cmd"}, keys: lists, progs: []string{"create", "saves"}, check: func(c *erun, _ *store) { c.checkConfirm() }}), Quick: 2, Thorough: 3},
			{Name: "confirm-shapes", Doc: "events of every content, type and sender, empty ones among them", Run: scnEventShapes},
			{Name: "confirm-kinds", Doc: "other buses and no transactions", Run: scnFault(faultSpec{cfg: ecfg{faults: true, faultAt: calls}, evs: "pick", forms: []string{"fn", "cmd"}, progs: []string{"create", "change"}, cfgs: func(x *explore.X, c *ecfg) {
				c.bus = []string{"tx", "plain"}[x.Pick("bus", 2)]
				c.noTx = x.Pick("transactions", 2) == 1
			}, check: func(c *erun, _ *store) { c.checkConfirm() }}), Quick: 1, Thorough: 2},
		},
	})
	ho := menuOpts{add: true, remove: true, mark: true, del: true, grow: true, move: true, save: true}
	hos := ho
	hos.small = true
	add(&explore.Property{
		ID: "C10", Title: "entity hooks",
		Rule:        "every program of up to the stated number of operations with hooks on every entity; before-hooks changing the entity; every hook failing (error, panic) in turn in representative and free programs",
		Assumptions: []string{memExec},
		Scenarios: []*explore.Scenario{
			{Name: "hooks-free", Doc: "all operations", Run: scnFree(evSpec{cfg: ecfg{hookWrites: true}, prelude: []string{"r1", "r1r2", "r1r3", ""}, depth: 3, extra: 1, opts: ho}), Thorough: 1},
			{Name: "hooks-rec", Doc: "recursive delete", Run: scnFree(evSpec{cfg: ecfg{recursive: true, hookWrites: true}, prelude: []string{"r1", "r1r2"}, depth: 3, extra: 1, opts: ho}), Thorough: 1},
			{Name: "hooks-alike", Doc: "entities of different types have the same IDs", Run: func(x *explore.X) {
				scnFree(evSpec{cfg: ecfg{alike: true, recursive: x.Pick("recursive", 2) == 1, hookWrites: true}, prelude: []string{"r1", "r1r2", "r1r3"}, depth: 3, opts: hos})(x)
			}},
			{Name: "hooks-faults", Doc: "every hook failing in free programs", Run: func(x *explore.X) {
				scnFree(evSpec{cfg: ecfg{hookWrites: true, faults: true, hookFaults: true, recursive: x.Pick("recursive", 2) == 1, faultAt: func(w string) bool { return w == "hook" }}, prelude: []string{"", "r1", "r1r2"}, depth: 2, opts: hos, check: func(c *erun) { c.vetoed(nil) }})(x)
			}, Quick: 1, Thorough: 2},
			{Name: "hooks-errors", Doc: "hooks failing with well-known errors, bare and wrapped", Run: func(x *explore.X) {
				scnFree(evSpec{cfg: ecfg{hookWrites: true, faults: true, hookFaults: true, kinds: true, recursive: true, faultAt: func(w string) bool { return w == "hook" }}, prelude: []string{"r1"}, depth: 1, extra: 1, opts: hos, check: func(c *erun) { c.vetoed(nil) }})(x)
			}, Quick: 1, Thorough: 2},
			{Name: "hooks-forms", Doc: "every hook failing, all forms", Run: scnFault(faultSpec{cfg: ecfg{hookWrites: true, faults: true, hookFaults: true, faultAt: func(w string) bool { return w == "hook" || w == "exec" }}, check: func(c *erun, b *store) {
				c.vetoed(b)
				if !c.h.bad && c.ok() {
					c.checkHooks()
				}
			}}), Quick: 2, Thorough: 2},
		},
	})
}

func calls2(what string) bool { return what != "entity2model" && what != "model2entity" }

// failedEvents checks the events of a command that failed.
func (c *erun) failedEvents(before *store) {
	h := c.h
	if c.ok() {
		return
	}
	disp, failed := false, false
	for _, k := range h.calls[c.start:] {
		if k.what == "dispatch" || k.what == "txbegin" {
			disp = true
			if failed {
				h.fail("events-of-failed", "events were handed over after the command had failed")
			}
		}
		if k.err != nil && !disp && k.what != "unlock" {
			failed = true
		}
	}
	if !h.cfg.noTx && len(h.st.evts) != len(before.evts) {
		h.fail("events-stored", "events of a failed command were stored")
	}
	_ = fmt.Sprint
}
