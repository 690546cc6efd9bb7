package checks

import (
	"time"

	"verif/mc/explore"
)

var zones = []*time.Location{time.FixedZone("east", 8*3600), time.FixedZone("west", -(5*3600 + 1800)), time.FixedZone("far", 14*3600)}

// zoned runs a scenario in programs whose local time is not UTC. A worker
// runs one execution at a time.
func zoned(run func(x *explore.X)) func(x *explore.X) {
	return func(x *explore.X) {
		was := time.Local
		defer func() { time.Local = was }()
		time.Local = zones[x.Pick("time zone", len(zones))]
		run(x)
	}
}

// The properties about time hold wherever the program runs: these scenarios
// are repeated in other time zones.
func init() {
	for _, z := range []struct {
		id, name        string
		quick, thorough int
	}{
		{"C13", "diff-1", 0, 0},
		{"C14", "lock-db-2", 1, 2},
		{"C14", "lock-db-lease", 1, 2},
		{"C15", "lock-job", 0, 1},
		{"C15", "lock-owner-stale", 1, 2},
		{"C16", "bus-dispatch-ages", 0, 0},
		{"C16", "bus-dispatch-retry", 1, 1},
		{"C17", "bus-once-days", 0, 0},
		{"C17", "bus-once-retry", 1, 1},
		{"C18", "bus-order-fifo-window", 0, 0},
		{"C18", "bus-order-fifo-hours", 0, 0},
		{"C18", "bus-order-fifo-ages", 0, 0},
		{"C18", "bus-order-lax-ages", 0, 0},
		{"C19", "bus-retry-long", 0, 0},
		{"C19", "bus-retry-exhaust", 0, 0},
		{"C20", "bus-tx-check-faults", 0, 1},
		{"C20", "bus-tx-unknown", 1, 1},
		{"C21", "bus-clean-days", 0, 0},
		{"C21", "bus-clean-live", 0, 1},
		{"C22", "timer-down", 0, 0},
		{"C22", "timer-cancel", 0, 1},
	} {
		s := scenarios[z.name]
		if s == nil {
			panic("no scenario " + z.name)
		}
		extend(z.id, &explore.Scenario{Name: z.name + "-zone", Doc: s.Doc + "; the local time is not UTC", Run: zoned(s.Run), Quick: z.quick, Thorough: z.thorough})
	}
}
