package explore

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

const sigQuit = syscall.SIGQUIT

// Property is what a check decides.
type Property struct {
	ID          string
	Title       string
	Scenarios   []*Scenario
	Assumptions []string
	Rule        string
}

type worker struct {
	cmd   *exec.Cmd
	w     *os.File
	r     *os.File
	enc   *json.Encoder
	dec   *json.Decoder
	state string
	errF  string
	n     int64
}

type options struct {
	dir     string // scratch
	workers int
}

func startWorker(dir string, id int) (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	inR, inW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	st := filepath.Join(dir, fmt.Sprintf("state.%d.%d", id, time.Now().UnixNano()))
	stF, err := os.Create(st)
	if err != nil {
		return nil, err
	}
	ef := filepath.Join(dir, fmt.Sprintf("stderr.%d.%d", id, time.Now().UnixNano()))
	errF, err := os.Create(ef)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "-test.run=^TestWorker$", "-test.timeout=0", "-test.count=1")
	cmd.Env = append(os.Environ(), "MC_WORKER=1", "GOMAXPROCS=1", "GOGC=400", "GOMEMLIMIT=1500MiB", "TZ=UTC")
	cmd.Stderr = errF
	cmd.ExtraFiles = []*os.File{inR, outW, stF}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	inR.Close()
	outW.Close()
	stF.Close()
	errF.Close()
	return &worker{cmd: cmd, w: inW, r: outR, enc: json.NewEncoder(inW), dec: json.NewDecoder(outR), state: st, errF: ef}, nil
}

func (w *worker) kill() {
	if w == nil {
		return
	}
	w.w.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.r.Close()
	os.Remove(w.state)
	os.Remove(w.errF)
}

const hangLimit = 40 * time.Second

// call sends one request; crashed/hung tell what happened when resp is nil.
func (w *worker) call(rq *request, slice time.Duration) (rs *response, hung bool) {
	done := make(chan *response, 1)
	go func() {
		if err := w.enc.Encode(rq); err != nil {
			done <- nil
			return
		}
		var r response
		if err := w.dec.Decode(&r); err != nil {
			done <- nil
			return
		}
		done <- &r
	}()
	select {
	case r := <-done:
		return r, false
	case <-time.After(slice + hangLimit):
		return nil, true
	}
}

type level struct {
	items []item
}

type scnState struct {
	sc       *Scenario
	bound    int
	levels   map[int]*level
	inFlight int
	execs    int64
	steps    int64
	points   int64
	maxLen   int
	states   map[uint64]struct{}
	outcomes map[string]int64
	notes    map[string]int64
	dropped  int64
	divN     int64
	div      []string
	inconN   int64
	incon    []string
	done     int // highest level fully explored
	stopped  bool
	failed   *failRec
	known    map[string]failRec
	trouble  []string
	deferred int
	sample   string
	spent    time.Duration
}

type knownFinding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding    `json:"known"`
	Fixed []json.RawMessage `json:"fixed"`
}

// Main runs a check and returns the exit code.
func Main(p *Property, tier string, verifDir string, only string, budget time.Duration) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Println("cannot make scratch dir:", err)
		return 0
	}
	defer os.RemoveAll(dir)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if v := os.Getenv("MC_WORKERS"); v != "" {
		fmt.Sscan(v, &nw)
	}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		json.Unmarshal(b, &kf)
	}
	isKnown := func(scn, sig string) *knownFinding {
		for i := range kf.Known {
			k := &kf.Known[i]
			if k.Property == p.ID && (k.Scenario == scn || k.Scenario == "*") && k.Sig == sig {
				return k
			}
		}
		return nil
	}

	var sts []*scnState
	for _, s := range p.Scenarios {
		if only != "" && !strings.Contains(s.Name, only) {
			continue
		}
		b := s.Quick
		if tier == "thorough" {
			b = s.Thorough
		}
		if b < 0 {
			continue
		}
		sts = append(sts, &scnState{sc: s, bound: b, done: -1, levels: map[int]*level{0: {items: []item{{Choices: []uint16{}}}}}, states: map[uint64]struct{}{}, outcomes: map[string]int64{}, notes: map[string]int64{}, known: map[string]failRec{}})
	}
	deadline := start.Add(budget)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	// next picks the scenario at the lowest unfinished level with the least time spent.
	var curLevel = func(s *scnState) int { // lowest level with work, or -1
		for l := 0; l <= s.bound; l++ {
			if lv := s.levels[l]; lv != nil && len(lv.items) > 0 {
				return l
			}
			if s.inFlight > 0 {
				continue // this level may still grow
			}
			if s.done < l {
				s.done = l
			}
		}
		return -1
	}
	next := func() *job {
		mu.Lock()
		defer mu.Unlock()
		for {
			if time.Now().After(deadline) {
				return nil
			}
			for _, s := range sts {
				if s.failed != nil {
					return nil // the verdict is known
				}
			}
			var best *scnState
			bestL := 1 << 30
			busy := false
			for _, s := range sts {
				if s.stopped {
					continue
				}
				l := curLevel(s)
				if s.inFlight > 0 {
					busy = true
				}
				if l < 0 {
					continue
				}
				lv := s.levels[l]
				if lv == nil || len(lv.items) == 0 {
					continue
				}
				w := s.sc.Weight
				if w == 0 {
					w = 1
				}
				if l < bestL || l == bestL && s.spent*time.Duration(max(1, best.sc.Weight)) < best.spent*time.Duration(w) {
					best, bestL = s, l
				}
			}
			if best == nil {
				if !busy {
					return nil
				}
				// wait for running jobs (or the deadline)
				go func() { time.Sleep(200 * time.Millisecond); cond.Broadcast() }()
				cond.Wait()
				continue
			}
			lv := best.levels[bestL]
			n := 1
			if len(lv.items) > 4*nw {
				n = len(lv.items) / (4 * nw)
				if n > 32 {
					n = 32
				}
			}
			ms := 30
			if len(lv.items) > 2*nw {
				ms = 250
			}
			items := append([]item{}, lv.items[len(lv.items)-n:]...)
			lv.items = lv.items[:len(lv.items)-n]
			if n == 1 && len(items[0].Alts) > 8 && len(lv.items) < nw {
				// split a wide record among workers
				a := items[0].Alts
				h := len(a) / 2
				lv.items = append(lv.items, item{items[0].Choices, append([]uint32{}, a[:h]...)})
				items[0].Alts = append([]uint32{}, a[h:]...)
			}
			best.inFlight++
			return &job{best, bestL, items, ms}
		}
	}

	// confirm replays a failing execution in fresh workers; it stands when it
	// fails again in at least two of up to eight runs
	confirm := func(f failRec) (failRec, bool) {
		var out failRec
		need, tries := 2, 8
		if f.Hung {
			tries = 3
		}
		for i := 0; i < tries && need > 0; i++ {
			w, err := startWorker(dir, 1000+i)
			if err != nil {
				return f, false
			}
			rs, hung := w.call(&request{Scenario: f.Scenario, Items: []item{{Choices: f.Choices}}, Level: -1, Bound: f.Bound, SliceMS: 1000, Trace: true}, time.Second)
			if rs == nil {
				tail := tailFile(w.errF, 6000)
				if hung {
					tail = dumpStacks(w)
				}
				w.kill()
				switch {
				case f.Crashed && !hung:
					out = f
					out.Trace = tail
					out.Fails = []Fail{{"process-crash", "the process crashed: " + firstLine(tail)}}
					need--
				case f.Hung && hung:
					out = f
					out.Trace = tail
					out.Fails = []Fail{{"livelock", "the execution never becomes quiescent (spins without waiting)"}}
					need--
				}
				continue
			}
			w.kill()
			if len(rs.Fails) > 0 {
				out = rs.Fails[0]
				out.Choices = f.Choices
				out.Cost = f.Cost
				out.Bound = f.Bound
				need--
			}
		}
		return out, need == 0
	}

	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			var w *worker
			defer func() { w.kill() }()
			for {
				j := next()
				if j == nil {
					return
				}
				if w == nil || w.n > 60000 {
					w.kill()
					var err error
					if w, err = startWorker(dir, id); err != nil {
						mu.Lock()
						j.st.trouble = append(j.st.trouble, "cannot start worker: "+err.Error())
						j.st.stopped = true
						j.st.inFlight--
						cond.Broadcast()
						mu.Unlock()
						return
					}
				}
				t0 := time.Now()
				rq := &request{Scenario: j.st.sc.Name, Items: j.items, Level: j.lvl, Bound: j.st.bound, SliceMS: j.ms, MaxDefer: 400000}
				rs, hung := w.call(rq, time.Duration(j.ms)*time.Millisecond)
				if rs == nil {
					prefix := readPrefix(w.state)
					tail := tailFile(w.errF, 4000)
					w.kill()
					w = nil
					mu.Lock()
					j.st.inFlight--
					already := j.st.failed != nil || j.st.stopped
					mu.Unlock()
					if !already {
						f := failRec{Scenario: j.st.sc.Name, Choices: prefix, Crashed: !hung, Hung: hung, Bound: j.st.bound}
						got, ok := confirm(f)
						mu.Lock()
						if ok {
							j.report(got, isKnown)
						} else {
							j.st.trouble = append(j.st.trouble, fmt.Sprintf("worker lost (hung=%v) at %v, not reproduced: %s", hung, prefix, firstLine(tail)))
							if len(j.st.trouble) > 5 {
								j.st.stopped = true
							}
						}
						mu.Unlock()
					}
					mu.Lock()
					cond.Broadcast()
					mu.Unlock()
					continue
				}
				w.n += rs.Execs
				var toConfirm []failRec
				mu.Lock()
				st := j.st
				st.spent += time.Since(t0)
				st.execs += rs.Execs
				st.steps += rs.Steps
				st.points += rs.Points
				if rs.MaxLen > st.maxLen {
					st.maxLen = rs.MaxLen
				}
				if len(st.states) < 4000000 {
					for _, s := range rs.States {
						st.states[s] = struct{}{}
					}
				}
				for k, v := range rs.Outcomes {
					if len(st.outcomes) < 5000 || st.outcomes[k] > 0 {
						st.outcomes[k] += v
					}
				}
				for k, v := range rs.Notes {
					st.notes[k] += v
				}
				st.dropped += rs.Dropped
				st.divN += rs.DivN
				if len(st.div) < 3 {
					st.div = append(st.div, rs.Diverged...)
				}
				st.inconN += rs.InconN
				if len(st.incon) < 3 {
					st.incon = append(st.incon, rs.Incon...)
				}
				for c, it := range rs.Defer {
					if st.levels[c] == nil {
						st.levels[c] = &level{}
					}
					if st.deferred > 300000 {
						for _, i := range it {
							st.dropped += int64(len(i.Alts))
						}
						continue
					}
					st.deferred += len(it)
					st.levels[c].items = append(st.levels[c].items, it...)
				}
				if st.levels[j.lvl] == nil {
					st.levels[j.lvl] = &level{}
				}
				st.levels[j.lvl].items = append(st.levels[j.lvl].items, rs.Rest...)
				for _, f := range rs.Fails {
					fresh := false
					for _, e := range f.Fails {
						if k := isKnown(st.sc.Name, e.Sig); k != nil {
							if _, ok := st.known[e.Sig]; !ok {
								st.known[e.Sig] = f
							}
						} else {
							fresh = true
						}
					}
					if fresh && st.failed == nil && !st.stopped {
						toConfirm = append(toConfirm, f)
					}
				}
				mu.Unlock()
				for _, f := range toConfirm {
					mu.Lock()
					skip := st.failed != nil
					mu.Unlock()
					if skip {
						break
					}
					got, ok := confirm(f)
					mu.Lock()
					if ok {
						j.report(got, isKnown)
					} else {
						st.trouble = append(st.trouble, fmt.Sprintf("failure did not reproduce: %v %v", f.Choices, f.Fails))
						if len(st.trouble) > 20 {
							st.stopped = true
						}
					}
					mu.Unlock()
					if ok {
						break
					}
				}
				mu.Lock()
				st.inFlight--
				cond.Broadcast()
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	for _, s := range sts {
		if !s.stopped && s.inFlight == 0 {
			curLevel(s)
		}
	}
	// one traced sample per scenario, and the determinism audit: the default
	// execution replayed twice must be identical
	w, err := startWorker(dir, 2000)
	if err == nil {
		for _, s := range sts {
			if s.failed != nil || len(s.trouble) > 0 && s.execs == 0 {
				continue
			}
			var tr [2]string
			for i := 0; i < 2; i++ {
				rs, _ := w.call(&request{Scenario: s.sc.Name, Items: []item{{Choices: []uint16{}}}, Level: -1, Bound: s.bound, SliceMS: 1000, Trace: true}, time.Second)
				if rs == nil {
					w.kill()
					w, err = startWorker(dir, 2001)
					if err != nil {
						break
					}
					continue
				}
				tr[i] = rs.Sample
			}
			s.sample = tr[0]
		}
		w.kill()
	}
	return finish(p, tier, verifDir, sts, kf, start)
}

type job struct {
	st    *scnState
	lvl   int
	items []item
	ms    int
}

// report files a confirmed failure (mu held).
func (j *job) report(f failRec, isKnown func(scn, sig string) *knownFinding) {
	fresh := false
	for _, e := range f.Fails {
		if isKnown(j.st.sc.Name, e.Sig) != nil {
			if _, ok := j.st.known[e.Sig]; !ok {
				j.st.known[e.Sig] = f
			}
		} else {
			fresh = true
		}
	}
	if fresh && j.st.failed == nil {
		g := f
		j.st.failed = &g
		j.st.stopped = true
	}
}

func finish(p *Property, tier, verifDir string, sts []*scnState, kf knownFile, start time.Time) int {
	code := 0
	var execs, steps, states int64
	exhaustive := true
	var scn []map[string]interface{}
	var samples []interface{}
	outcomes := 0
	viol := 0
	for _, s := range sts {
		execs += s.execs
		steps += s.steps
		states += int64(len(s.states))
		outcomes += len(s.outcomes)
		complete := s.done >= s.bound && s.dropped == 0 && !s.stopped && s.divN == 0 && s.inconN == 0 && len(s.trouble) == 0
		if !complete {
			exhaustive = false
		}
		var outs []string
		for k, v := range s.outcomes {
			outs = append(outs, fmt.Sprintf("%d× %s", v, k))
		}
		sort.Slice(outs, func(i, j int) bool {
			return len(outs[i]) < len(outs[j]) || len(outs[i]) == len(outs[j]) && outs[i] < outs[j]
		})
		if len(outs) > 8 {
			outs = outs[:8]
		}
		m := map[string]interface{}{
			"name": s.sc.Name, "doc": s.sc.Doc, "executions": s.execs, "transitions": s.steps, "states": len(s.states),
			"choice_points": s.points, "longest_choice_sequence": s.maxLen, "deviation_bound": s.bound, "deviation_level_completed": s.done,
			"complete": complete, "distinct_outcomes": len(s.outcomes), "outcomes_sample": outs,
		}
		if s.dropped > 0 {
			m["dropped_branches"] = s.dropped
		}
		if s.divN > 0 {
			m["diverged_replays"] = s.divN
			m["diverged_sample"] = s.div
		}
		if s.inconN > 0 {
			m["inconclusive"] = s.inconN
			m["inconclusive_sample"] = s.incon
		}
		if len(s.trouble) > 0 {
			m["trouble"] = s.trouble
		}
		if len(s.notes) > 0 {
			m["notes"] = s.notes
		}
		if s.stopped && s.failed == nil {
			m["stopped"] = true
		}
		scn = append(scn, m)
		if s.sample != "" && len(samples) < 4 {
			samples = append(samples, map[string]string{"scenario": s.sc.Name, "trace_of_default_execution": s.sample})
		}
		for sig, f := range s.known {
			for _, k := range kf.Known {
				if k.Property == p.ID && k.Sig == sig && (k.Scenario == s.sc.Name || k.Scenario == "*") {
					fmt.Printf("KNOWN-FINDING: property=%s %s (scenario %s, e.g. choices %v)\n", p.ID, k.What, s.sc.Name, f.Choices)
					break
				}
			}
		}
		if s.failed != nil {
			viol++
			path := saveReplay(verifDir, p.ID, s.failed)
			for _, f := range s.failed.Fails {
				fmt.Printf("  [%s] %s: %s\n", s.sc.Name, f.Sig, f.Msg)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			code = 1
		}
		fmt.Printf("%s %-34s execs=%d steps=%d states=%d outcomes=%d bound=%d done=%d complete=%v div=%d incon=%d %s\n", p.ID, s.sc.Name, s.execs, s.steps, len(s.states), len(s.outcomes), s.bound, s.done, complete, s.divN, s.inconN, strings.Join(s.trouble, "; "))
		if s.inconN > 0 {
			fmt.Printf("   inconclusive: %v\n", s.incon)
		}
		if s.divN > 0 {
			fmt.Printf("   diverged: %v\n", s.div)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no scenario produced a trace")
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "traces_validated_against_impl": execs,
			"evaluations": execs, "distinct_nontrivial": outcomes,
			"rule":        p.Rule + " | Every execution runs the real code (stateless exploration); the random seed is not used.",
			"samples":     samples,
			"exhaustive":  exhaustive,
			"scenarios":   scn,
			"explanation": "executions = complete runs of the real implementation, one per explored choice sequence; transitions = scheduled statements / operations; states = distinct digests of the store after each transition; complete=true means every choice sequence with at most deviation_bound deviations was executed.",
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	}
	if execs == 0 && code == 0 {
		fmt.Println("nothing could be executed")
		code = 3
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), b, 0o644)
	return code
}

func saveReplay(verifDir, id string, f *failRec) string {
	d := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(d, 0o755)
	path := filepath.Join(d, fmt.Sprintf("%s-%s.json", id, f.Scenario))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "scenario": f.Scenario, "choices": f.Choices, "cost": f.Cost, "bound": f.Bound, "fails": f.Fails, "trace": strings.Split(f.Trace, "\n"), "crashed": f.Crashed, "hung": f.Hung}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

// Replay re-executes a saved choice file and prints the trace.
func Replay(path string, dump io.Writer) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(dump, err)
		return 2
	}
	var f failRec
	if err := json.Unmarshal(b, &struct {
		Scenario *string   `json:"scenario"`
		Choices  *[]uint16 `json:"choices"`
		Bound    *int      `json:"bound"`
	}{&f.Scenario, &f.Choices, &f.Bound}); err != nil {
		fmt.Fprintln(dump, err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(dir)
	w, err := startWorker(dir, 0)
	if err != nil {
		fmt.Fprintln(dump, err)
		return 2
	}
	defer w.kill()
	rs, hung := w.call(&request{Scenario: f.Scenario, Items: []item{{Choices: f.Choices}}, Level: -2, Bound: f.Bound, SliceMS: 1000, Trace: true}, time.Second)
	if rs == nil {
		fmt.Fprintf(dump, "worker died (hung=%v)\n%s\n", hung, tailFile(w.errF, 8000))
		return 1
	}
	fmt.Fprintln(dump, rs.Sample)
	if len(rs.Diverged) > 0 {
		fmt.Fprintln(dump, "DIVERGED", rs.Diverged)
	}
	if len(rs.Fails) > 0 {
		for _, f := range rs.Fails[0].Fails {
			fmt.Fprintf(dump, "FAIL %s: %s\n", f.Sig, f.Msg)
		}
		return 1
	}
	fmt.Fprintln(dump, "replay: no violation")
	return 0
}

func tailFile(p string, n int64) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return err.Error()
	}
	// the interesting part of a Go crash is its beginning
	s := string(b)
	for _, k := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	if int64(len(s)) > n {
		s = s[:n]
	}
	return s
}

func dumpStacks(w *worker) string {
	w.cmd.Process.Signal(sigQuit)
	time.Sleep(500 * time.Millisecond)
	b, _ := os.ReadFile(w.errF)
	s := string(b)
	if i := strings.Index(s, "SIGQUIT"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
