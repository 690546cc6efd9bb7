package checks

import (
	"fmt"
	"os"
	"testing"
	"time"

	"verif/mc/explore"
)

func TestMain(m *testing.M) {
	if os.Getenv("MC_WORKER") != "" {
		os.Exit(m.Run())
	}
	if f := os.Getenv("MC_REPLAY"); f != "" {
		os.Exit(explore.Replay(f, os.Stdout))
	}
	if id := os.Getenv("MC_PROPERTY"); id != "" {
		p := props[id]
		if p == nil {
			fmt.Println("no such property", id)
			os.Exit(0)
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		b := 100 * time.Second
		if tier == "thorough" {
			b = 700 * time.Second
		}
		if v := os.Getenv("MC_BUDGET"); v != "" {
			if d, err := time.ParseDuration(v); err == nil {
				b = d
			}
		}
		dir := os.Getenv("MC_VERIF")
		os.Exit(explore.Main(p, tier, dir, os.Getenv("MC_ONLY"), b))
	}
	os.Exit(m.Run())
}

func TestWorker(t *testing.T) {
	if os.Getenv("MC_WORKER") == "" {
		t.Skip("worker only")
	}
	explore.WorkerMain(t, func(n string) *explore.Scenario { return scenarios[n] })
}

// TestProfile runs the default execution of one scenario many times.
func TestProfile(t *testing.T) {
	s := scenarios[os.Getenv("MC_ONLY")]
	if s == nil {
		t.Skip()
	}
	t0 := time.Now()
	n := 0
	for ; time.Since(t0) < 5*time.Second; n++ {
		explore.RunOnce(t, s)
	}
	fmt.Println(n, "executions in", time.Since(t0))
}
