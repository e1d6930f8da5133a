package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mewmew/typast/internal/verifsim/sim"
)

// Replay is the content of a replay file.
type Replay struct {
	Property  string              `json:"property"`
	Tier      string              `json:"tier"`
	Race      bool                `json:"race,omitempty"`
	Kind      string              `json:"kind"`
	Violation string              `json:"violation"`
	Seed      uint64              `json:"seed"`
	VerifSeed uint64              `json:"verif_seed"`
	BySeed    bool                `json:"by_seed,omitempty"` // the choices are those of the seed, not the streams
	Fault     []uint64            `json:"forced_fault,omitempty"`
	Streams   map[string][]uint64 `json:"streams,omitempty"`
	Probe     string              `json:"probe,omitempty"`
	Minimised bool                `json:"minimised"`
	Note      string              `json:"note,omitempty"`
	Trace     []string            `json:"trace,omitempty"`
}

func (rp *Replay) choices() *sim.Choices {
	if rp.BySeed {
		c := sim.NewChoices(rp.Seed)
		if rp.Fault != nil {
			c.Force(sim.Fault, rp.Fault)
		}
		return c
	}
	return sim.ReplayChoices(rp.streams())
}

func (rp *Replay) streams() [sim.NStreams][]uint64 {
	var in [sim.NStreams][]uint64
	for i, n := range sim.StreamNames {
		in[i] = rp.Streams[n]
	}
	return in
}

func (rp *Replay) setStreams(in [sim.NStreams][]uint64) {
	rp.Streams = map[string][]uint64{}
	for i, n := range sim.StreamNames {
		s := in[i]
		for len(s) > 0 && s[len(s)-1] == 0 {
			s = s[:len(s)-1]
		}
		if len(s) > 0 {
			rp.Streams[n] = s
		}
	}
}

// report is what a worker tells its parent.
type report struct {
	Replay  *Replay
	Stats   *stats
	Trouble string
}

type stats struct {
	Runs      int64
	Seeds     int64
	Evals     int64
	Steps     uint64
	SimNanos  int64
	Count     map[string]int64
	Distinct  map[string][]uint64
	Keys      []uint64
	Samples   []string
	Undecided map[string]int64
	Known     map[string]string
	RaceRuns  int64
	Stopped   bool
}

func newStats() *stats {
	return &stats{Count: map[string]int64{}, Distinct: map[string][]uint64{}, Undecided: map[string]int64{}, Known: map[string]string{}}
}

func (s *stats) add(r *Run) {
	s.Runs++
	s.Evals += r.Evals
	s.Steps += r.SimSteps
	s.SimNanos += r.SimNanos
	for k, v := range r.Count {
		s.Count[k] += v
	}
	for k, v := range r.Distinct {
		s.Distinct[k] = append(s.Distinct[k], v...)
	}
	s.Keys = append(s.Keys, r.Keys...)
	if r.Undecided != "" {
		s.Undecided[r.Undecided]++
	}
	if r.Sample != "" && len(s.Samples) < 2 && len(r.Keys) > 0 {
		s.Samples = append(s.Samples, clip(r.Sample, 1500))
	}
}

func uniq(v []uint64) []uint64 {
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	out := v[:0]
	for i, x := range v {
		if i == 0 || x != v[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func (s *stats) compact() {
	s.Keys = uniq(s.Keys)
	for k := range s.Distinct {
		s.Distinct[k] = uniq(s.Distinct[k])
	}
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Seeds += o.Seeds
	s.Evals += o.Evals
	s.Steps += o.Steps
	s.SimNanos += o.SimNanos
	s.RaceRuns += o.RaceRuns
	s.Stopped = s.Stopped || o.Stopped
	for k, v := range o.Count {
		s.Count[k] += v
	}
	for k, v := range o.Distinct {
		s.Distinct[k] = append(s.Distinct[k], v...)
	}
	for k, v := range o.Undecided {
		s.Undecided[k] += v
	}
	for k, v := range o.Known {
		s.Known[k] = v
	}
	s.Keys = append(s.Keys, o.Keys...)
	if len(s.Samples) < 4 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

func fatal(format string, v ...any) {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", v...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func main() {
	debug.SetMaxStack(3 << 30)
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fatal("usage: harness check|worker|replay|minimise|one ...")
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2])
	case "probe":
		cmdProbe(os.Args[2:])
	case "minimise":
		cmdMinimise(os.Args[2])
	case "one":
		cmdOne(os.Args[2:])
	case "tree":
		cmdTree(os.Args[2:])
	case "tool":
		cmdTool(os.Args[2:])
	case "conformance":
		cmdConformance(os.Args[2:])
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

// --- worker ---

// cmdWorker runs the seeds of one shard: prop tier base shard shards n deadline progressfile
func cmdWorker(a []string) {
	p := properties[a[0]]
	tier := a[1]
	base, _ := strconv.ParseUint(a[2], 10, 64)
	shard, _ := strconv.Atoi(a[3])
	shards, _ := strconv.Atoi(a[4])
	n, _ := strconv.Atoi(a[5])
	secs, _ := strconv.Atoi(a[6])
	progress := a[7]
	from, _ := strconv.Atoi(a[8])
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	out := json.NewEncoder(os.Stdout)
	st := newStats()
	prog, err := os.OpenFile(progress, os.O_CREATE|os.O_WRONLY, 0o644)
	must(err)
	note := func(i int, fault []uint64) {
		b, _ := json.Marshal(map[string]any{"i": i, "fault": fault})
		prog.Truncate(0)
		prog.WriteAt(b, 0)
	}
	found := func(r *Run, c *sim.Choices, seed uint64, fault []uint64) bool {
		if r.Viol == nil {
			return false
		}
		if f := known.match(p.ID, r.Viol); f != "" {
			st.Known[f] = clip(r.Viol.Msg, 300)
			return false
		}
		rp := &Replay{Property: p.ID, Tier: tier, Race: sim.RaceBuild, Kind: r.Viol.Kind, Violation: r.Viol.Msg, Seed: seed, VerifSeed: base, Fault: fault}
		rp.setStreams(c.Used())
		out.Encode(report{Replay: rp})
		return true
	}
	if f := os.Getenv("VERIF_PROFILE"); f != "" && shard == 0 {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	raceOffset := 0
	if sim.RaceBuild {
		raceOffset = 1 << 20
	}
	lastCompact := time.Now()
loop:
	for i := from; i < n; i++ {
		if i%shards != shard {
			continue
		}
		if time.Now().After(deadline) {
			st.Stopped = true
			break
		}
		if time.Since(lastCompact) > 5*time.Second {
			st.compact()
			lastCompact = time.Now()
		}
		seed := seedOf(base, p.ID, i+raceOffset)
		note(i, nil)
		c := sim.NewChoices(seed)
		if p.Cases != nil {
			c.Force(sim.Fault, []uint64{})
		}
		r := execute(p, c, tier, false)
		if sim.Trouble != "" {
			out.Encode(report{Trouble: fmt.Sprintf("seed %d: %s", seed, sim.Trouble)})
			os.Exit(0)
		}
		st.Seeds++
		st.add(r)
		if found(r, c, seed, nil) {
			break
		}
		// determinism: the same choices give the same run.
		if i%64 == shard%64 || i < shards {
			r2 := execute(p, sim.ReplayChoices(c.Used()), tier, false)
			if fmt.Sprint(r2.Keys, r2.SimSteps, r2.Viol) != fmt.Sprint(r.Keys, r.SimSteps, r.Viol) && !sim.RaceBuild {
				if r2.Viol == nil {
					out.Encode(report{Trouble: fmt.Sprintf("seed %d is not deterministic", seed)})
					os.Exit(0)
				}
				if found(r2, c, seed, nil) {
					break
				}
			}
			st.Count["replayed and equal"]++
		}
		if p.Cases != nil && r.Viol == nil {
			for _, f := range p.Cases(r, seed, tier) {
				if time.Now().After(deadline) {
					st.Stopped = true
					break loop
				}
				note(i, f)
				c := sim.NewChoices(seed)
				if f != nil {
					c.Force(sim.Fault, f)
				}
				r := execute(p, c, tier, false)
				if sim.Trouble != "" {
					out.Encode(report{Trouble: fmt.Sprintf("seed %d fault %v: %s", seed, f, sim.Trouble)})
					os.Exit(0)
				}
				st.add(r)
				if found(r, c, seed, f) {
					break loop
				}
			}
		}
	}
	if sim.RaceBuild {
		st.RaceRuns = st.Runs
	}
	pprof.StopCPUProfile()
	st.compact()
	out.Encode(report{Stats: st})
	os.Exit(0)
}

// --- replay ---

func cmdReplay(file string) {
	var rp Replay
	b, err := os.ReadFile(file)
	must(err)
	must(json.Unmarshal(b, &rp))
	p := properties[rp.Property]
	if p == nil {
		fatal("no such property: %q", rp.Property)
	}
	if rp.Race && !sim.RaceBuild {
		runAs(os.Args[0]+"-race", "replay", file)
	}
	if rp.Probe != "" {
		out, code := run(os.Args[0], 200*time.Second, "probe", p.ID, rp.Probe)
		fmt.Println(firstLines(out, 20))
		if code != 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
			os.Exit(1)
		}
		os.Exit(0)
	}
	r := execute(p, rp.choices(), rp.Tier, true)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if sim.Trouble != "" {
		fatal("%s", sim.Trouble)
	}
	if r.Viol == nil {
		fmt.Println("no violation")
		os.Exit(0)
	}
	fmt.Printf("%s: %s\n", r.Viol.Kind, r.Viol.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	os.Exit(1)
}

func runAs(bin string, args ...string) {
	cmd := exec.Command(bin, args...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err := cmd.Run()
	if err == nil {
		os.Exit(0)
	}
	if e, ok := err.(*exec.ExitError); ok {
		os.Exit(e.ExitCode())
	}
	fatal("%v", err)
}

// cmdOne runs one seed with a trace: prop seed [fault...]
func cmdOne(a []string) {
	p := properties[a[0]]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	tier := "quick"
	c := sim.NewChoices(seed)
	if p.Cases != nil {
		c.Force(sim.Fault, []uint64{})
	}
	if len(a) > 2 {
		f := []uint64{}
		for _, x := range a[2:] {
			v, _ := strconv.ParseUint(x, 10, 64)
			f = append(f, v)
		}
		c.Force(sim.Fault, f)
	}
	r := execute(p, c, tier, true)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	fmt.Println("trouble:", sim.Trouble, "undecided:", r.Undecided, "evals:", r.Evals, "steps:", r.SimSteps, "ops:", r.Ops)
	fmt.Println(r.Count)
	if r.Viol != nil {
		fmt.Printf("%s: %s\n", r.Viol.Kind, r.Viol.Msg)
	}
}

// --- minimising ---

func cmdMinimise(file string) {
	var rp Replay
	b, err := os.ReadFile(file)
	must(err)
	must(json.Unmarshal(b, &rp))
	p := properties[rp.Property]
	kind := rp.Kind
	secs, _ := strconv.Atoi(os.Getenv("VERIF_MINIMISE"))
	if secs == 0 {
		secs = 30
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	cur := rp.streams()
	tried := 0
	size := func(s [sim.NStreams][]uint64) (n int, sum float64) {
		for _, x := range s {
			n += len(x)
			for _, v := range x {
				sum += float64(v)
			}
		}
		return
	}
	save := func() {
		rp.setStreams(cur)
		rp.Minimised = true
		rp.BySeed = false
		writeJSON(file, rp)
	}
	// try runs a candidate; if it still fails the same way it becomes current.
	try := func(cand [sim.NStreams][]uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		tried++
		c := sim.ReplayChoices(cand)
		r := execute(p, c, rp.Tier, false)
		if sim.Trouble != "" || r.Viol == nil || r.Viol.Kind != kind || known.match(p.ID, r.Viol) != "" {
			return false
		}
		used := c.Used()
		for i := range used {
			for len(used[i]) > 0 && used[i][len(used[i])-1] == 0 {
				used[i] = used[i][:len(used[i])-1]
			}
		}
		n0, s0 := size(cur)
		n1, s1 := size(used)
		if n1 > n0 || (n1 == n0 && s1 >= s0) {
			return false
		}
		cur = used
		rp.Violation = r.Viol.Msg
		return true
	}
	with := func(s int, v []uint64) [sim.NStreams][]uint64 {
		c := cur
		c[s] = v
		return c
	}
	for round := 0; ; round++ {
		n0, s0 := size(cur)
		order := []int{int(sim.Sched), int(sim.Order), int(sim.Fault), int(sim.Config), int(sim.Gen)}
		for _, s := range order {
			// truncate
			for k := 0; k < len(cur[s]); {
				if !try(with(s, append([]uint64(nil), cur[s][:k]...))) {
					k = k*2 + 1
				} else {
					break
				}
			}
			// delete chunks
			for chunk := len(cur[s]) / 2; chunk >= 1; chunk /= 2 {
				for i := len(cur[s]) - chunk; i >= 0; i -= chunk {
					if i+chunk > len(cur[s]) {
						continue
					}
					v := append([]uint64(nil), cur[s][:i]...)
					v = append(v, cur[s][i+chunk:]...)
					try(with(s, v))
				}
			}
			// zero chunks
			for chunk := len(cur[s]); chunk >= 1; chunk /= 2 {
				for i := 0; i < len(cur[s]); i += chunk {
					v := append([]uint64(nil), cur[s]...)
					any := false
					for j := i; j < i+chunk && j < len(v); j++ {
						any = any || v[j] != 0
						v[j] = 0
					}
					if any {
						try(with(s, v))
					}
				}
			}
			// lower values
			for i := 0; i < len(cur[s]); i++ {
				if i >= len(cur[s]) || cur[s][i] <= 1 {
					continue
				}
				for _, w := range []uint64{1, cur[s][i] / 2, cur[s][i] - 1} {
					if i >= len(cur[s]) || w >= cur[s][i] {
						break
					}
					v := append([]uint64(nil), cur[s]...)
					v[i] = w
					if try(with(s, v)) {
						break
					}
				}
			}
		}
		save()
		n1, s1 := size(cur)
		if (n1 == n0 && s1 == s0) || time.Now().After(deadline) {
			break
		}
	}
	// record the trace of the minimised run.
	r := execute(p, sim.ReplayChoices(cur), rp.Tier, true)
	if r.Viol != nil && r.Viol.Kind == kind {
		rp.Violation = r.Viol.Msg
		rp.Trace = r.Trace
		rp.Note = fmt.Sprintf("minimised in %d candidate runs", tried)
		save()
	}
	os.Exit(0)
}

func writeJSON(file string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Dir(file), 0o755))
	tmp := file + ".tmp"
	must(os.WriteFile(tmp, append(b, '\n'), 0o644))
	must(os.Rename(tmp, file))
}

// --- parent ---

// cmdCheck runs a property: prop tier dir
func cmdCheck(a []string) {
	start := time.Now()
	p := properties[a[0]]
	if p == nil {
		fatal("no such property: %q", a[0])
	}
	tier, verif, tmp := a[1], a[2], a[3]
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err == nil {
			base = v
		}
	}
	n, rn, secs := p.Quick, p.RaceQuick, 150
	if tier == "thorough" {
		n, rn, secs = p.Thorough, p.RaceThorough, 600
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		n, _ = strconv.Atoi(s)
		rn = n / 10
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		secs, _ = strconv.Atoi(s)
	}
	total := newStats()
	rp, trouble := sweep(p, os.Args[0], tier, base, n, secs, tmp, total)
	if rp == nil && trouble == "" && p.Race && rn > 0 {
		rp, trouble = sweep(p, os.Args[0]+"-race", tier, base, rn, secs, tmp, total)
	}
	if rp == nil && trouble != "" {
		fatal("%s", trouble)
	}
	if rp == nil {
		rp = probeAll(p, base, tier, total)
	}
	total.compact()
	violations := 0
	if rp != nil {
		violations = 1
	}
	wall := time.Since(start).Seconds()
	writeEvidence(p, tier, base, verif, total, wall, violations)
	for k := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	fmt.Printf("%s: %d seeds, %d runs, %d executions judged, %d distinct non-trivial, %.1f s\n", p.ID, total.Seeds, total.Runs, total.Evals, len(total.Keys), wall)
	if total.Stopped {
		fmt.Printf("%s: stopped at the time limit\n", p.ID)
	}
	if rp == nil {
		os.Exit(0)
	}
	file := finish(rp, verif)
	fmt.Printf("%s: %s\n", rp.Kind, rp.Violation)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	os.Exit(1)
}

// finish minimises a violation and writes its replay file.
func finish(rp *Replay, verif string) string {
	file := filepath.Join(verif, "replay", fmt.Sprintf("%s-%016x.json", rp.Property, mix(rp.Seed, hash(rp.Kind, fmt.Sprint(rp.Fault)))))
	writeJSON(file, rp)
	bin := os.Args[0]
	if rp.Race {
		bin += "-race"
	}
	orig := *rp
	if !rp.BySeed {
		run(bin, 90*time.Second, "minimise", file)
	}
	out, code := run(bin, 60*time.Second, "replay", file)
	if code != 1 {
		// the minimised run does not reproduce; fall back to the original.
		orig.Note = "could not be minimised"
		writeJSON(file, orig)
		out, code = run(bin, 60*time.Second, "replay", file)
		if code != 1 && !orig.BySeed {
			orig.Note = "seen once; replaying the same choices does not fail: the code under test behaves nondeterministically"
			writeJSON(file, orig)
		}
	}
	_ = out
	b, err := os.ReadFile(file)
	if err == nil {
		json.Unmarshal(b, rp)
	}
	return file
}

func run(bin string, limit time.Duration, args ...string) (string, int) {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path=/dev/null")
	var buf strings.Builder
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return err.Error(), 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return buf.String(), 0
		}
		if e, ok := err.(*exec.ExitError); ok {
			return buf.String(), e.ExitCode()
		}
		return err.Error(), 2
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return buf.String(), 124
	}
}

// sweep runs the seeds of a property in worker processes.
func sweep(p *Property, bin, tier string, base uint64, n, secs int, tmp string, total *stats) (*Replay, string) {
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && v > 0 {
		shards = v
	}
	if n < shards {
		shards = max(n, 1)
	}
	type result struct {
		rps     []*Replay
		trouble string
		stats   *stats
	}
	race := strings.HasSuffix(bin, "-race")
	results := make([]result, shards)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var procs []*exec.Cmd
	found := false
	stopAll := func() {
		mu.Lock()
		defer mu.Unlock()
		if !found {
			found = true
			// let the others have a moment to report a smaller case, then end.
			go func() {
				time.Sleep(300 * time.Millisecond)
				mu.Lock()
				defer mu.Unlock()
				for _, c := range procs {
					c.Process.Kill()
				}
			}()
		}
	}
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			res := &results[s]
			progress := filepath.Join(tmp, fmt.Sprintf("progress-%s-%d-%v", p.ID, s, race))
			from := 0
			for {
				os.Remove(progress)
				cmd := exec.Command(bin, "worker", p.ID, tier, fmt.Sprint(base), fmt.Sprint(s), fmt.Sprint(shards), fmt.Sprint(n), fmt.Sprint(secs), progress, fmt.Sprint(from))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0")
				stdout, err := cmd.StdoutPipe()
				must(err)
				errFile := progress + ".err"
				ef, err := os.Create(errFile)
				must(err)
				cmd.Stderr = ef
				must(cmd.Start())
				mu.Lock()
				procs = append(procs, cmd)
				mu.Unlock()
				// watchdog
				quit := make(chan bool)
				hung := false
				go func() {
					last := ""
					since := time.Now()
					for {
						select {
						case <-quit:
							return
						case <-time.After(time.Second):
						}
						b, _ := os.ReadFile(progress)
						if string(b) != last {
							last, since = string(b), time.Now()
						} else if time.Since(since) > 120*time.Second {
							hung = true
							cmd.Process.Kill()
							return
						}
					}
				}()
				ended := false
				rd := bufio.NewReaderSize(stdout, 1<<20)
				dec := json.NewDecoder(rd)
				for {
					var rep report
					if err := dec.Decode(&rep); err != nil {
						break
					}
					switch {
					case rep.Replay != nil:
						res.rps = append(res.rps, rep.Replay)
						stopAll()
					case rep.Trouble != "":
						res.trouble = rep.Trouble
						ended = true
					case rep.Stats != nil:
						res.stats = rep.Stats
						ended = true
					}
				}
				io.Copy(io.Discard, rd)
				cmd.Wait()
				close(quit)
				ef.Close()
				mu.Lock()
				f := found
				mu.Unlock()
				if ended || f {
					return
				}
				var pr struct {
					I     int
					Fault []uint64
				}
				b, _ := os.ReadFile(progress)
				if json.Unmarshal(b, &pr) != nil {
					eb, _ := os.ReadFile(errFile)
					res.trouble = "worker died: " + clip(string(eb), 2000)
					return
				}
				off := 0
				if race {
					off = 1 << 20
				}
				rp := &Replay{Property: p.ID, Tier: tier, Race: race, Seed: seedOf(base, p.ID, pr.I+off), VerifSeed: base, BySeed: true, Fault: pr.Fault}
				if p.Cases != nil && rp.Fault == nil {
					rp.Fault = []uint64{}
				}
				if hung {
					res.trouble = fmt.Sprintf("seed %d (case %d %v) made no progress for 120 s", rp.Seed, pr.I, pr.Fault)
					return
				}
				// the process died; see whether this seed does it again.
				file := filepath.Join(tmp, fmt.Sprintf("died-%s-%d.json", p.ID, s))
				writeJSON(file, rp)
				out, code := run(bin, 120*time.Second, "replay", file)
				eb, _ := os.ReadFile(errFile)
				if code == 1 || code == 0 || code == 124 {
					res.trouble = "worker died but its seed does not: " + clip(string(eb), 2000)
					return
				}
				rp.Kind = "process died"
				rp.Violation = firstLines(string(eb)+"\n"+out, 40)
				res.rps = append(res.rps, rp)
				stopAll()
				return
			}
		}(s)
	}
	wg.Wait()
	trouble := ""
	var best *Replay
	sizeOf := func(rp *Replay) int {
		n := 0
		for _, s := range rp.Streams {
			n += len(s)
		}
		if rp.BySeed {
			n = 1 << 30
		}
		return n
	}
	for _, r := range results {
		if r.trouble != "" {
			trouble = r.trouble
		}
		if r.stats != nil {
			total.merge(r.stats)
		}
		for _, rp := range r.rps {
			if best == nil || sizeOf(rp) < sizeOf(best) {
				best = rp
			}
		}
	}
	return best, trouble
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeEvidence(p *Property, tier string, base uint64, verif string, st *stats, wall float64, violations int) {
	distinct := map[string]int{}
	for k, v := range st.Distinct {
		distinct[k] = len(v)
	}
	samples := []any{}
	for _, s := range st.Samples {
		samples = append(samples, s)
	}
	faults := map[string]int64{}
	counts := map[string]int64{}
	for k, v := range st.Count {
		if strings.HasPrefix(k, "fault ") {
			faults[strings.TrimPrefix(k, "fault ")] = v
		} else {
			counts[k] = v
		}
	}
	hours := wall / 3600
	knownList := []string{}
	for k := range st.Known {
		knownList = append(knownList, k)
	}
	sort.Strings(knownList)
	cov := map[string]any{
		"evaluations":          st.Evals,
		"distinct_nontrivial":  len(st.Keys),
		"rule":                 p.Rule,
		"samples":              samples,
		"simulated_runs":       st.Runs,
		"seeds":                st.Seeds,
		"runs_per_hour":        int64(float64(st.Runs) / hours),
		"seeds_per_hour":       int64(float64(st.Seeds) / hours),
		"simulated_steps":      st.Steps,
		"simulated_time_s":     float64(st.SimNanos) / 1e9,
		"simulated_time_note":  "the code under test neither reads a clock nor waits; the simulated clock advances only by 1 microsecond per system call, so steps (statements executed) are the measure of simulated time",
		"faults_injected":      faults,
		"counts":               counts,
		"distinct":             distinct,
		"distinct_measures":    p.Measures,
		"runs_without_verdict": st.Undecided,
		"race_detector_runs":   st.RaceRuns,
		"known_findings_seen":  knownList,
		"real_components":      p.Real,
		"stub_components":      p.Stub,
		"stopped_at_deadline":  st.Stopped,
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": base, "level": p.Level, "coverage": cov,
		"assumptions": []string{
			"the simulated file system behaves like the real one (compared by the conformance run)",
			"statements execute sequentially consistently; data races are left to the race detector runs",
		},
		"wall_s": wall, "violations": violations,
	}
	writeJSON(filepath.Join(verif, "evidence", p.ID+".json"), ev)
}
