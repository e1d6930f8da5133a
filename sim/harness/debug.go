package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/internal/verifsim/gen"
	"github.com/mewmew/typast/internal/verifsim/sim"
	"github.com/mewmew/typast/internal/verifsim/simos"
	"github.com/mewmew/typast/typst/syntax"
)

func show(n *syntax.SyntaxNode, depth int) {
	fmt.Printf("%s%s\n", strings.Repeat("  ", depth), brief(n))
	for _, c := range kids(n) {
		show(c, depth+1)
	}
}

// cmdTree shows trees: TEXT [START END WITH]... in Go syntax without quotes.
func cmdTree(a []string) {
	reset(sim.NewChoices(1))
	unq := func(s string) string {
		u, err := strconv.Unquote(`"` + s + `"`)
		must(err)
		return u
	}
	src := syntax.NewDetachedSource(unq(a[0]))
	show(src.Root, 0)
	for a = a[1:]; len(a) >= 3; a = a[3:] {
		s, _ := strconv.Atoi(a[0])
		e, _ := strconv.Atoi(a[1])
		r := src.Edit(ranges.NewRange(uint64(s), uint64(e)), unq(a[2]))
		fmt.Printf("--- edited, reparsed %v of %d bytes\n", r, len(src.Text()))
		show(src.Root, 0)
		fmt.Println("--- fresh", treeDiff(src.Root, syntax.Parse(src.Text()), "root"))
		show(syntax.Parse(src.Text()), 0)
	}
}

// cmdTool runs a tool on an empty machine once per seed and shows what it
// printed: NAME COUNT [ARG]...
func cmdTool(a []string) {
	n, _ := strconv.Atoi(a[1])
	seen := map[string]int{}
	for i := 0; i < n; i++ {
		r := &Run{Count: map[string]int64{}, Distinct: map[string][]uint64{}}
		reset(sim.NewChoices(uint64(i)))
		m := simos.NewMachine()
		if gen.Tools[a[0]] == nil {
			fmt.Println("no such tool")
			return
		}
		o := r.runTool(m, &invocation{tool: a[0], args: a[2:], cwd: "/"})
		s := fmt.Sprintf("%s%sexit %d hang=%v %s", o.stdout, o.stderr, o.code, o.overrun, strings.SplitN(o.pan, "\n", 2)[0])
		if seen[s] == 0 {
			fmt.Printf("--- seed %d\n%s\n", i, s)
		}
		seen[s]++
	}
	fmt.Printf("%d different outcomes\n", len(seen))
}
