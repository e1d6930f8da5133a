package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/typst/syntax"
)

// A probe runs one fixed input in a process of its own, because failing it
// ends the process.
type probe struct {
	name string // names the finding, if listed as known
	what string
	run  func() error
}

// stackDepth parses brackets nested deeper than the default 1 GB of stack.
var stackDepth = probe{
	name: "stack-depth",
	what: `parsing "#[" repeated 1000000 times (2 MB)`,
	run: func() error {
		text := strings.Repeat("#[", 1_000_000)
		if got := syntax.Parse(text); int(nodeLen(got)) != len(text) {
			return fmt.Errorf("%d bytes instead of %d", nodeLen(got), len(text))
		}
		return nil
	},
}

// cmdProbe runs a probe: prop name. Exits with 0 if it passed.
func cmdProbe(a []string) {
	debug.SetMaxStack(1_000_000_000) // the default
	for _, pr := range properties[a[0]].Probes {
		if pr.name == a[1] {
			reset(sim.NewChoices(1))
			if err := pr.run(); err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			fmt.Println("passed")
			os.Exit(0)
		}
	}
	fatal("no such probe: %q", a[1])
}

// probeAll runs the probes of a property.
func probeAll(p *Property, base uint64, tier string, st *stats) *Replay {
	for _, pr := range p.Probes {
		out, code := run(os.Args[0], 200*time.Second, "probe", p.ID, pr.name)
		if code == 0 {
			st.Count["probes passed"]++
			continue
		}
		msg := fmt.Sprintf("%s: %s", pr.what, firstLines(out, 3))
		v := &Violation{Kind: "probe " + pr.name, Msg: msg, Key: pr.name}
		if !strings.Contains(out, "stack exceeds") {
			v.Key = "" // fails in another way than the one listed
		}
		if f := known.match(p.ID, v); f != "" {
			st.Known[f] = clip(msg, 300)
			continue
		}
		return &Replay{Property: p.ID, Tier: tier, Kind: v.Kind, Violation: clip(msg, 1000), VerifSeed: base, BySeed: true, Probe: pr.name}
	}
	return nil
}
