package explore

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"testing"
	"time"
)

// item is a set of prefixes: Choices[:idx]+alt for every (idx,alt) in Alts; a nil
// Alts means the prefix Choices itself.
type item struct {
	Choices []uint16 `json:"c"`
	Alts    []uint32 `json:"a,omitempty"` // idx<<12 | alt
}

type request struct {
	Scenario string `json:"s"`
	Items    []item `json:"i"`
	Level    int    `json:"l"` // deviation cost of these items
	Bound    int    `json:"b"` // largest cost ever explored
	SliceMS  int    `json:"ms"`
	Trace    bool   `json:"t,omitempty"`
	MaxDefer int    `json:"md"`
	Stop     bool   `json:"x,omitempty"`
}

type failRec struct {
	Scenario string   `json:"scenario"`
	Choices  []uint16 `json:"choices"`
	Cost     int      `json:"cost"`
	Bound    int      `json:"bound"`
	Fails    []Fail   `json:"fails"`
	Trace    string   `json:"trace,omitempty"`
	Hung     bool     `json:"hung,omitempty"`
	Crashed  bool     `json:"crashed,omitempty"`
}

type response struct {
	Execs    int64            `json:"e"`
	Steps    int64            `json:"st"`
	Points   int64            `json:"p"`
	MaxLen   int              `json:"ml"`
	States   []uint64         `json:"ss,omitempty"`
	Outcomes map[string]int64 `json:"o,omitempty"`
	Notes    map[string]int64 `json:"n,omitempty"`
	Fails    []failRec        `json:"f,omitempty"`
	Defer    map[int][]item   `json:"d,omitempty"`
	Dropped  int64            `json:"dr,omitempty"`
	Rest     []item           `json:"r,omitempty"`
	Diverged []string         `json:"dv,omitempty"`
	DivN     int64            `json:"dn,omitempty"`
	Incon    []string         `json:"ic,omitempty"`
	InconN   int64            `json:"icn,omitempty"`
	Sample   string           `json:"sm,omitempty"`
	Recheck  int64            `json:"rc,omitempty"`
	Unstable int64            `json:"us,omitempty"`
}

// WorkerMain serves requests on fd 3/4 until told to stop.
func WorkerMain(t *testing.T, find func(name string) *Scenario) {
	runtime.GOMAXPROCS(1)
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	stateFile := os.NewFile(5, "state")
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	seen := map[string]map[uint64]struct{}{}
	for {
		var rq request
		if err := dec.Decode(&rq); err != nil || rq.Stop {
			return
		}
		sc := find(rq.Scenario)
		if sc == nil {
			fmt.Fprintln(os.Stderr, "no scenario", rq.Scenario)
			os.Exit(3)
		}
		if seen[rq.Scenario] == nil {
			seen[rq.Scenario] = map[uint64]struct{}{}
		}
		rs := serve(t, sc, &rq, seen[rq.Scenario], stateFile)
		if err := enc.Encode(rs); err != nil {
			return
		}
	}
}

func serve(t *testing.T, sc *Scenario, rq *request, seen map[uint64]struct{}, stateFile *os.File) *response {
	rs := &response{Outcomes: map[string]int64{}, Notes: map[string]int64{}, Defer: map[int][]item{}}
	deadline := time.Now().Add(time.Duration(rq.SliceMS) * time.Millisecond)
	stack := append([]item{}, rq.Items...)
	ndefer := 0
	for len(stack) > 0 {
		if rs.Execs > 0 && time.Now().After(deadline) {
			break
		}
		it := &stack[len(stack)-1]
		var prefix []uint16
		if it.Alts == nil {
			prefix = it.Choices
			stack = stack[:len(stack)-1]
		} else {
			a := it.Alts[len(it.Alts)-1]
			idx, alt := int(a>>12), uint16(a&0xfff)
			prefix = append(append(make([]uint16, 0, idx+1), it.Choices[:idx]...), alt)
			it.Alts = it.Alts[:len(it.Alts)-1]
			if len(it.Alts) == 0 {
				stack = stack[:len(stack)-1]
			}
		}
		writePrefix(stateFile, prefix)
		r := execute(t, sc, prefix, rq.Bound, rq.Trace)
		x := r.x
		if r.diverged != "" {
			rs.DivN++
			if len(rs.Diverged) < 3 {
				rs.Diverged = append(rs.Diverged, r.diverged)
			}
			continue
		}
		rs.Execs++
		rs.Steps += x.steps
		rs.Points += int64(len(x.points) - len(prefix))
		if len(x.points) > rs.MaxLen {
			rs.MaxLen = len(x.points)
		}
		if x.inconclusive != "" {
			rs.InconN++
			if len(rs.Incon) < 3 {
				rs.Incon = append(rs.Incon, x.inconclusive)
			}
		}
		for s := range x.states {
			if _, ok := seen[s]; !ok {
				seen[s] = struct{}{}
				rs.States = append(rs.States, s)
			}
		}
		if len(rs.Outcomes) < 200 || rs.Outcomes[x.outcome] > 0 {
			rs.Outcomes[x.outcome]++
		}
		for k, v := range x.notes {
			rs.Notes[k] += v
		}
		if len(x.fails) > 0 && x.inconclusive == "" {
			f := failRec{Scenario: sc.Name, Choices: x.choices(), Cost: x.cost, Fails: x.fails, Bound: rq.Bound}
			if rq.Trace {
				f.Trace = trimTrace(x.trace, 400)
			}
			if len(rs.Fails) < 20 {
				rs.Fails = append(rs.Fails, f)
			}
		}
		if rq.Trace {
			rs.Sample = trimTrace(x.trace, 120)
			if rq.Level < -1 {
				rs.Sample = trimTrace(x.trace, 100000)
			}
			if len(rq.Items) == 1 && rq.Level < 0 {
				continue // replay only
			}
		}
		if rq.Level < 0 {
			continue
		}
		// children
		ch := x.choices()
		cost := 0
		for i := 0; i < len(prefix); i++ {
			cost += x.points[i].costs[x.points[i].pick]
		}
		var same []uint32
		var def map[int][]uint32
		for i := len(prefix); i < len(x.points); i++ {
			p := x.points[i]
			for alt := 1; alt < len(p.costs); alt++ {
				c := cost + p.costs[alt]
				if c > rq.Bound {
					continue
				}
				e := uint32(i)<<12 | uint32(alt)
				if c <= rq.Level {
					same = append(same, e)
				} else {
					if def == nil {
						def = map[int][]uint32{}
					}
					def[c] = append(def[c], e)
				}
			}
			cost += p.costs[p.pick]
		}
		// run earlier alternatives first: stack pops from the end
		if len(same) > 0 {
			rev := make([]uint32, len(same))
			for i, v := range same {
				rev[len(same)-1-i] = v
			}
			stack = append(stack, item{ch, rev})
		}
		for c, alts := range def {
			if ndefer+len(alts) > rq.MaxDefer {
				rs.Dropped += int64(len(alts))
				continue
			}
			ndefer += len(alts)
			rs.Defer[c] = append(rs.Defer[c], item{ch, alts})
		}
	}
	rs.Rest = stack
	return rs
}

func writePrefix(f *os.File, p []uint16) {
	if f == nil {
		return
	}
	b := make([]byte, 4+2*len(p))
	n := len(p)
	b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	for i, v := range p {
		b[4+2*i], b[5+2*i] = byte(v), byte(v>>8)
	}
	f.WriteAt(b, 0)
}

func readPrefix(path string) []uint16 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 4 {
		return nil
	}
	n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
	p := make([]uint16, 0, n)
	for i := 0; i < n && 5+2*i < len(b); i++ {
		p = append(p, uint16(b[4+2*i])|uint16(b[5+2*i])<<8)
	}
	return p
}
