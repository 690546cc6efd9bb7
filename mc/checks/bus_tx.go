package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// noteEntity / notePO: the business data of the full-stack checks.
type noteEntity struct {
	ddd.BaseEntity
	Text string
}

type notePO struct {
	ID   string `gorm:"primaryKey"`
	Text string
}

func (p *notePO) GetID() string     { return p.ID }
func (p *notePO) TableName() string { return "note" }

// curTx is the system of the running execution (routers are process-global).
var curTx atomic.Pointer[txSys]

const txType = ddd.EventType("verif_tx_note")

type txEvent struct {
	Name string
	From string
	Note string
}

func (e *txEvent) GetType() ddd.EventType { return txType }
func (e *txEvent) GetSender() string      { return e.From }

func init() {
	exmysql.RegisterEntity2Model(&noteEntity{}, func(e, parent ddd.IEntity, op ddd.OpType) (exmysql.IModel, error) {
		n := e.(*noteEntity)
		return &notePO{ID: n.GetID(), Text: n.Text}, nil
	}, func(po exmysql.IModel, do ddd.IEntity) error {
		p, n := po.(*notePO), do.(*noteEntity)
		n.SetID(p.ID)
		n.Text = p.Text
		return nil
	})
	ddd.RegisterEventHandler(txType, func(ctx context.Context, evt *ddd.DomainEvent) error {
		s := curTx.Load()
		return s.b.handle(s.byProc(s.b.w.Cur()), evt)
	})
	ddd.RegisterEventTXChecker(txType, func(evt *txEvent) ddd.TXStatus {
		s := curTx.Load()
		return s.check(evt)
	})
}

type txSpec struct {
	cmds     []txCmd
	others   []string // services of further instances
	inst2    bool     // a second instance of A with its own engine
	unknowns int      // how many of the first checks may answer unknown
	panics   bool
	failing  int // first attempts of A that fail
	horizon  time.Duration
	to       time.Duration
	twoProd  bool
	slow     time.Duration // duration of the command's logic
	forever  int           // the first checks that answer unknown without choice
	dims     bool          // enumerate the command's outcome
	honest   bool
	stuck    time.Duration // until then the checks of one command answer unknown
}

type txCmd struct {
	tx, plain []string
	end       string // "", "error", "break", "panic"
	save      bool   // mid-command save
}

type txSys struct {
	b       *busSys
	engines map[*busInst]*ddd.Engine
	checks  []txCheck
	unk     int
	forever int
	honest  bool // undecided commands are reported as unknown, not as rolled back
	runs    []*txRun
	stuck   string
	until   time.Duration
}

type txCheck struct {
	at     time.Time
	note   string
	status ddd.TXStatus
	inst   string
}

func (s *txSys) byProc(p *world.Proc) *busInst {
	for _, i := range s.b.insts {
		if i.p == p {
			return i
		}
	}
	return nil
}

func (s *txSys) committed(note string) bool {
	for _, r := range s.b.w.DB.Rows("note") {
		if fmt.Sprint(r["id"]) == note {
			return true
		}
	}
	return false
}

func (s *txSys) check(evt *txEvent) ddd.TXStatus {
	i := s.byProc(s.b.w.Cur())
	i.p.Point("status check of " + evt.Note)
	st := ddd.TXRollBack
	if s.committed(evt.Note) {
		st = ddd.TXCommit
	} else if s.honest {
		for _, r := range s.runs {
			if r.note == evt.Note && !r.done && r.by != nil && !r.by.p.Dead && r.by.p.Inc == r.inc {
				st = ddd.TXUnknown // it is still running: not decided yet
			}
		}
	}
	s.b.mu.Lock()
	n := len(s.checks)
	s.b.mu.Unlock()
	if evt.Note == s.stuck && s.b.w.Since() < s.until || n < s.forever {
		st = ddd.TXUnknown
	} else if n < s.unk {
		if s.b.x.Pick("check answers unknown", 2) == 1 {
			st = ddd.TXUnknown
		}
	}
	s.b.mu.Lock()
	s.checks = append(s.checks, txCheck{time.Now(), evt.Note, st, i.p.Name})
	s.b.mu.Unlock()
	return st
}

type txRun struct {
	cmd  txCmd
	note string
	res  *ddd.Result
	done bool
	pan  bool
	by   *busInst
	inc  int
}

func scnBusTx(sp txSpec, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			w.AddModels(&notePO{})
			s := &txSys{b: b, engines: map[*busInst]*ddd.Engine{}, unk: sp.unknowns, forever: sp.forever, honest: sp.honest}
			curTx.Store(s)
			if sp.failing > 0 {
				b.behave = func(svc, evt string, n int) error {
					if svc == "A" && n < sp.failing {
						return errHandler
					}
					return nil
				}
			}
			opts := func(o *busmysql.Options) { o.RetryLimit = 5 }
			withEngine := func(name string) *busInst {
				i := b.inst(name, "A", opts)
				return i
			}
			if sp.stuck > 0 {
				s.until, s.stuck = sp.stuck, fmt.Sprintf("note%d", 1+x.Pick("unknown for long", len(sp.cmds)))
			}
			b.onBoot = func(i *busInst) {
				if i.svc != "A" {
					return
				}
				s.engines[i] = ddd.NewEngine(nil, exmysql.NewExecutor(i.p.DB), append(i.bus.Options(), ddd.WithLogger(discard))...)
			}
			prods := []*busInst{withEngine("P")}
			if sp.inst2 {
				prods = append(prods, withEngine("P2"))
			}
			for k, o := range sp.others {
				b.inst(fmt.Sprintf("C%d", k+1), o, opts)
			}
			cmds := append([]txCmd{}, sp.cmds...)
			if sp.dims {
				for i := range cmds {
					cmds[i].end = []string{"", "error", "break", "panic"}[x.Pick("command ends with", 4)]
				}
			}
			var runs []*txRun
			for k, c := range cmds {
				runs = append(runs, &txRun{cmd: c, note: fmt.Sprintf("note%d", k+1)})
			}
			s.runs = runs
			run := func(i *busInst, r *txRun) {
				r.by, r.inc = i, i.p.Inc
				defer func() {
					if e := recover(); e != nil {
						if strings.Contains(fmt.Sprint(e), "user panic") {
							r.pan, r.done = true, true
							return
						}
						panic(e)
					}
				}()
				r.res = s.engines[i].Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
					n := &noteEntity{Text: "t"}
					n.SetID(r.note)
					add := func(names []string, st ddd.SendType) {
						for _, m := range names {
							n.AddEvent(&txEvent{Name: m, From: "s", Note: r.note}, ddd.WithSendType(st))
							evs := n.GetEvents()
							c := *evs[len(evs)-1]
							b.mu.Lock()
							b.sent[m] = &c
							b.mu.Unlock()
						}
					}
					add(r.cmd.tx, ddd.SendTypeTransaction)
					add(r.cmd.plain, ddd.SendTypeNormal)
					repo.Add(n)
					if r.cmd.save {
						if err := repo.Save(ctx); err != nil {
							return err
						}
					}
					if sp.slow > 0 {
						time.Sleep(sp.slow)
					}
					switch r.cmd.end {
					case "error":
						return errors.New("user error")
					case "break":
						return ddd.ErrBreak
					case "panic":
						panic("user panic")
					}
					return nil
				})
				r.done = true
			}
			to := sp.to
			if to == 0 {
				to = 9 * time.Second
			}
			w.Window(1400*time.Millisecond, to)
			for pi, p := range prods {
				pi, p := pi, p
				p.p.Go("client", func() {
					time.Sleep(1500 * time.Millisecond)
					for k, r := range runs {
						if sp.twoProd && k%len(prods) != pi || !sp.twoProd && pi != 0 {
							continue
						}
						run(p, r)
					}
				})
			}
			h := sp.horizon
			if h == 0 {
				h = 24 * time.Second
			}
			var idle time.Duration
			idleChecks := 0
			w.Loop(h, func() bool {
				if w.Tasks() > 0 || w.Since() < 3*time.Second || b.openServiceEvents() > 0 || len(w.DB.Rows(tblTx)) > 0 {
					idle = 0
					return false
				}
				if idle == 0 {
					idle = w.Since()
					idleChecks = len(s.checks)
				}
				return w.Since() > idle+8*time.Second
			})
			if n := len(w.DB.Rows(tblTx)); n > 0 {
				x.Failf("pending-left", "%d pending transaction record(s) are still there after %s (status checks: %d)", n, w.Since(), len(s.checks))
			} else if len(s.checks) > idleChecks {
				x.Failf("checked-after-decision", "the status check was asked again after everything was decided")
			}
			calm := w.Faults() == 0 && w.Crashes() == 0
			var out []string
			for _, r := range runs {
				com := s.committed(r.note)
				success := r.done && !r.pan && r.res.Error == nil && !r.res.Break
				if success && !com {
					x.Failf("success-not-committed", "the command reported success but its row is not stored")
				}
				out = append(out, fmt.Sprintf("%s(done=%v,ok=%v,com=%v)", r.note, r.done, success, com))
				var ids = map[string]int{}
				for _, e := range w.DB.Rows(tblEvent) {
					ids[fmt.Sprint(e["event_id"])]++
				}
				for _, name := range append(append([]string{}, r.cmd.tx...), r.cmd.plain...) {
					evt := b.sent[name]
					if evt == nil {
						continue
					}
					if ids[evt.ID] > 1 {
						x.Failf("stored-twice", "event %s was stored %d times for delivery", name, ids[evt.ID])
					}
				}
				for _, name := range r.cmd.tx {
					for _, svc := range b.services() {
						all, ok := b.deliveries(svc, name)
						switch {
						case com && ok == 0:
							x.Failf("lost", "the command committed but %s never handled its transactional event %s", svc, name)
						case !com && len(all) > 0:
							x.Failf("uncommitted-delivered", "the command did not commit but %s was handed its transactional event %s", svc, name)
						case sp.stuck > 0 && r.note != s.stuck && com && !all[len(all)-1].start.Before(w.Start().Add(sp.stuck)):
							x.Failf("held-up", "%s got %s only after %s: the status of another command was unknown", svc, name, all[len(all)-1].start.Sub(w.Start()))
						case ok > 1 && calm:
							x.Failf("duplicate", "%s handled %s %d times", svc, name, ok)
						}
					}
				}
				for _, name := range r.cmd.plain {
					for _, svc := range b.services() {
						_, ok := b.deliveries(svc, name)
						if success && ok == 0 {
							x.Failf("plain-lost", "the command succeeded but %s never handled its plain event %s", svc, name)
						}
					}
				}
				if calm && !r.done {
					x.Failf("not-done", "the command never returned")
				}
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome(strings.Join(out, " ") + fmt.Sprintf(" checks=%d", len(s.checks)))
		})
	}
}

func init() {
	full := world.Config{Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, MaxSteps: 30000}
	pre := full
	pre.Preempt = true
	kinds := world.Config{Faults: true, CommitFaults: true, Kinds: world.Kinds, MaxSteps: 30000}
	slow := world.Config{Preempt: true, Holds: []time.Duration{3 * time.Second}, MaxSteps: 30000}
	stall := world.Config{Preempt: true, Holds: []time.Duration{6 * time.Second}, MaxSteps: 30000}
	stallFull := full
	stallFull.Holds = stall.Holds
	crashOnly := world.Config{Crash: true, CommitFaults: true, MaxCrash: 1, MaxSteps: 30000}
	two := []txCmd{{tx: []string{"t1", "t2"}, plain: []string{"n1"}}}
	add(&explore.Property{
		ID: "C20", Title: "transactional events through the whole stack",
		Rule:        "engine, MySQL executor and MySQL bus over one database; every crash point, statement failure, commit failure, lost commit acknowledgement and interleaving up to the deviation bound, every end of the command's logic and unknown answers of the status check",
		Assumptions: []string{"MySQL model (mc/memsql)", "the status check reports the truth (whether the command's row is stored) or unknown", "commands end within the check time-out, or the check answers unknown while they are running", "auto-increment values are not reused (MySQL 8)"},
		Scenarios: []*explore.Scenario{
			{Name: "bus-tx-faults", Doc: "one command with two transactional and one plain event, every end, services A and B", Run: scnBusTx(txSpec{cmds: two, others: []string{"B"}, dims: true}, full), Quick: 1, Thorough: 2},
			{Name: "bus-tx-unknown", Doc: "the first two checks may answer unknown", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1"}}}, unknowns: 2, horizon: 30 * time.Second, to: 14 * time.Second}, full), Quick: 2, Thorough: 2},
			{Name: "bus-tx-pre", Doc: "a second instance checks and consumes too", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1"}}}, inst2: true}, pre), Quick: 2, Thorough: 2},
			{Name: "bus-tx-2cmd", Doc: "two commands one after the other, mid-command save", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1"}, save: true}, {tx: []string{"t2", "t3"}}}, inst2: true}, full), Quick: 1, Thorough: 2},
			{Name: "bus-tx-2prod", Doc: "two processes run a command each at the same time", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1"}}, {tx: []string{"t2"}, plain: []string{"n2"}}}, inst2: true, twoProd: true, dims: true}, pre), Quick: 1, Thorough: 2},
			{Name: "bus-tx-slow", Doc: "statements take up to 3 s, the check time-out is 5 s; a second instance checks too", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1", "t2"}}}, inst2: true, dims: true}, slow), Quick: 1, Thorough: 1},
			{Name: "bus-tx-aged", Doc: "the command's logic takes 7 s after raising the events, longer than the check time-out; statements take up to 3 s", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1", "t2"}, plain: []string{"n1"}}}, inst2: true, dims: true, slow: 7 * time.Second, to: 14 * time.Second, horizon: 34 * time.Second}, slow), Quick: 1, Thorough: 1},
			{Name: "bus-tx-stall", Doc: "a statement takes 6 s, longer than the check time-out; a second instance checks too", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1", "t2"}}}, inst2: true, dims: true, to: 10 * time.Second, horizon: 34 * time.Second}, stall), Quick: 2, Thorough: 2},
			{Name: "bus-tx-stall-faults", Doc: "the same with a failing statement, commit or crash", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1"}}}, inst2: true, honest: true, to: 10 * time.Second, horizon: 34 * time.Second}, stallFull), Quick: 2, Thorough: 2},
			{Name: "bus-tx-long-unknown", Doc: "the status check answers unknown for more than a minute", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1"}}}, forever: 75, horizon: 130 * time.Second, to: 4 * time.Second}, crashOnly), Quick: 1, Thorough: 1},
			{Name: "bus-tx-stuck", Doc: "two commands, the status of one of them stays unknown for 40 s", Run: scnBusTx(txSpec{cmds: []txCmd{{tx: []string{"t1"}}, {tx: []string{"t2"}}}, stuck: 40 * time.Second, horizon: 70 * time.Second, to: 4 * time.Second}, world.Config{Faults: true, CommitFaults: true, MaxSteps: 60000}), Quick: 2, Thorough: 3},
			{Name: "bus-tx-many", Doc: "up to 130 undecided transactions, some undecided for a minute or for 19 hours", Run: scnTxMany},
			{Name: "bus-tx-check-faults", Doc: "two transactions that are decided by the status check while statements fail (also by deadlocks) and the instance crashes", Run: scnTxCheck(2, 1, world.Config{Faults: true, CommitFaults: true, Crash: true, Kinds: world.Kinds[:3], MaxSteps: 30000}), Quick: 2, Thorough: 2},
			{Name: "bus-tx-check-3", Doc: "the same with three", Run: scnTxCheck(3, 1, world.Config{Faults: true, CommitFaults: true, Crash: true, Kinds: world.Kinds[:3], MaxSteps: 30000}), Quick: 1, Thorough: 2},
			{Name: "bus-tx-check-2inst", Doc: "three transactions, two instances that check, interleaved", Run: scnTxCheck(3, 2, world.Config{Preempt: true, Faults: true, CommitFaults: true, Crash: true, MaxSteps: 30000}), Quick: 1, Thorough: 2},
			{Name: "bus-tx-kinds", Doc: "statements fail in every way", Run: scnBusTx(txSpec{cmds: two, dims: true, unknowns: 1}, kinds), Quick: 1, Thorough: 2},
			{Name: "bus-tx-retry", Doc: "handlers fail first", Run: scnBusTx(txSpec{cmds: two, failing: 2, others: []string{"B"}, to: 4 * time.Second}, full), Quick: 1, Thorough: 2},
		},
	})
}
