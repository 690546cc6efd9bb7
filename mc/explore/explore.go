// Package explore is a stateless, deviation-bounded model checker: it
// enumerates every sequence of choices a scenario can make, fewest deviations
// first, running each one on the real code.
package explore

import (
	"fmt"
	"hash/fnv"
	"strings"
	"testing"
)

// Diverged is panicked when a replayed prefix does not fit the execution.
type Diverged struct{ Msg string }

type point struct {
	label string
	costs []int
	pick  int
}

// X is one execution.
type X struct {
	T            *testing.T
	Params       map[string]string
	prefix       []uint16
	points       []point
	trace        []string
	Tracing      bool
	fails        []Fail
	steps        int64
	states       map[uint64]struct{}
	outcome      string
	cost         int
	bound        int
	notes        map[string]int64
	inconclusive string
}

// Fail is one broken assertion; Sig is a stable category.
type Fail struct {
	Sig string
	Msg string
}

// Choose returns the index of the alternative to take.  costs[i] is the
// deviation cost of alternative i (costs[0] is normally 0).  Alternatives whose
// cost would exceed the bound are still numbered but never taken.
func (x *X) Choose(label string, costs ...int) int {
	if len(costs) <= 1 {
		return 0
	}
	i := len(x.points)
	pick := 0
	if i < len(x.prefix) {
		pick = int(x.prefix[i])
		if pick >= len(costs) {
			panic(Diverged{fmt.Sprintf("choice %d (%s): %d of %d", i, label, pick, len(costs))})
		}
	}
	cs := make([]int, len(costs))
	copy(cs, costs)
	x.points = append(x.points, point{label, cs, pick})
	x.cost += costs[pick]
	if x.Tracing {
		x.trace = append(x.trace, fmt.Sprintf("  choice %d: %s -> %d/%d", i, label, pick, len(costs)))
	}
	return pick
}

// Pick enumerates n free alternatives (no deviation cost).
func (x *X) Pick(label string, n int) int {
	return x.Choose(label, make([]int, n)...)
}

// Budget is the deviation cost still available.
func (x *X) Budget() int { return x.bound - x.cost }

// Bound is the deviation bound of the exploration (used by scenarios without
// deviations as the number of extra operations).
func (x *X) Bound() int { return x.bound }

// Failf records a violation.
func (x *X) Failf(sig, f string, a ...interface{}) {
	if len(x.fails) < 20 {
		msg := fmt.Sprintf(f, a...)
		if len(msg) > 2000 {
			msg = strings.ToValidUTF8(msg[:2000], "") + "..."
		}
		x.fails = append(x.fails, Fail{sig, msg})
	}
	if x.Tracing {
		x.trace = append(x.trace, "VIOLATED "+sig+": "+fmt.Sprintf(f, a...))
	}
}

// Failed reports whether the execution failed so far.
func (x *X) Failed() bool { return len(x.fails) > 0 }

// Inconclusive marks the execution as not decidable (unsupported SQL etc).
func (x *X) Inconclusive(f string, a ...interface{}) {
	if x.inconclusive == "" {
		x.inconclusive = fmt.Sprintf(f, a...)
	}
}

// Tracef adds a line to the trace (only kept when tracing).
func (x *X) Tracef(f string, a ...interface{}) {
	if x.Tracing {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

// Step counts one transition and the state reached.
func (x *X) Step(state uint64) {
	x.steps++
	x.states[state] = struct{}{}
}

// StepStr is Step with a string rendered state.
func (x *X) StepStr(s string) { x.Step(Hash(s)) }

// Outcome records the observable outcome of the execution.
func (x *X) Outcome(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 300 {
		s = s[:300]
	}
	x.outcome = s
	x.Tracef("outcome: %s", s)
}

// Note counts something for the evidence.
func (x *X) Note(k string, n int64) { x.notes[k] += n }

// Hash of a string.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Scenario is one closed system to explore.
type Scenario struct {
	Name string
	Doc  string
	Run  func(x *X)
	// Bound is the largest deviation cost explored, per tier.
	Quick, Thorough int
	// Weight shares the time budget (default 1).
	Weight int
	// Spaces counts what is enumerated, for the evidence.
	Rule string
}

func (x *X) choices() []uint16 {
	c := make([]uint16, len(x.points))
	for i, p := range x.points {
		c[i] = uint16(p.pick)
	}
	return c
}

// Result of one execution.
type result struct {
	x        *X
	diverged string
}

func execute(t *testing.T, s *Scenario, prefix []uint16, bound int, tracing bool) (res result) {
	x := &X{T: t, prefix: prefix, Tracing: tracing, bound: bound, states: map[uint64]struct{}{}, notes: map[string]int64{}}
	res.x = x
	func() {
		defer func() {
			if r := recover(); r != nil {
				if d, ok := r.(Diverged); ok {
					res.diverged = d.Msg
					return
				}
				panic(r)
			}
		}()
		s.Run(x)
	}()
	if res.diverged == "" && len(x.points) < len(prefix) {
		res.diverged = fmt.Sprintf("execution made %d choices, prefix has %d", len(x.points), len(prefix))
	}
	return
}

func trimTrace(t []string, n int) string {
	if len(t) > n {
		t = append(append([]string{}, t[:n/2]...), append([]string{fmt.Sprintf("... %d lines ...", len(t)-n)}, t[len(t)-n/2:]...)...)
	}
	return strings.Join(t, "\n")
}

// RunOnce runs the default execution (for profiling).
func RunOnce(t *testing.T, s *Scenario) { execute(t, s, nil, 1, false) }
