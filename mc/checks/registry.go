// Package checks holds one file per property: the scenarios (closed systems)
// and the oracles.
package checks

import (
	"os"

	"github.com/go-logr/logr"
	"github.com/go-logr/stdr"

	"verif/mc/explore"
)

var props = map[string]*explore.Property{}
var scenarios = map[string]*explore.Scenario{}

// extended holds the scenarios that extend gave to properties not yet added.
var extended = map[string][]*explore.Scenario{}

// extend gives a property another scenario, whichever file comes first.
func extend(id string, s *explore.Scenario) {
	p := props[id]
	if p == nil {
		extended[id] = append(extended[id], s)
		return
	}
	if scenarios[s.Name] != nil {
		panic("scenario name repeated: " + s.Name)
	}
	p.Scenarios = append(p.Scenarios, s)
	scenarios[s.Name] = s
}

var discard = logr.Discard()

func add(p *explore.Property) {
	props[p.ID] = p
	p.Scenarios = append(p.Scenarios, extended[p.ID]...)
	delete(extended, p.ID)
	for _, s := range p.Scenarios {
		if scenarios[s.Name] != nil {
			panic("scenario name repeated: " + s.Name)
		}
		scenarios[s.Name] = s
	}
}

func init() {
	stdr.SetVerbosity(-1)
	if os.Getenv("MC_WORKER") != "" && os.Getenv("MC_LOG") == "" {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			_ = f
		}
	}
}
