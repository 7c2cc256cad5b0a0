package h

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"nimsim/simrt"
)

type workerOut struct {
	Stats   *Stats     `json:"stats"`
	Index   int        `json:"index"`
	V       *Violation `json:"v,omitempty"`
	Orig    *Violation `json:"orig,omitempty"`
	Plan    *Plan      `json:"plan,omitempty"`
	OrigP   *Plan      `json:"orig_plan,omitempty"`
	Shrinks int        `json:"shrinks"`
	Harness string     `json:"harness,omitempty"`
	Capped  bool       `json:"capped"`
	States  []uint64   `json:"-"`
	Known   map[string]int
}

// Main is the entry point of the simulator binary.
func Main(t *testing.T, args []string) int {
	if len(args) == 0 {
		fmt.Println("usage: check|worker|replay|one|digest ...")
		return 2
	}
	// Endless recursion shall end before it has filled a gigabyte.
	debug.SetMaxStack(64 << 20)
	switch args[0] {
	case "check": // property tier seed
		return checkMain(args[1], args[2], parseU(args[3]))
	case "worker":
		return workerMain(t, args[1:])
	case "replay":
		return replayMain(t, args[1])
	case "one":
		return oneMain(t, args[1], args[2], parseU(args[3]), int(parseU(args[4])))
	case "exec": // run the plan in a file, quietly; used to reproduce process crashes
		return execMain(t, args[1])
	case "list":
		var ids []string
		for id := range Checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return 0
	}
	fmt.Println("unknown command", args[0])
	return 2
}

func parseU(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return HashBytes([]byte(s))
	}
	return v
}

func workerMain(t *testing.T, a []string) int {
	prop, tier, seed := a[0], a[1], parseU(a[2])
	w, n := int(parseU(a[3])), int(parseU(a[4]))
	total := int(parseU(a[5]))
	capS := int(parseU(a[6]))
	status := a[7]
	c := Checks[prop]
	runtime.GOMAXPROCS(1)
	debug.SetMemoryLimit(3 << 30)
	known := loadKnown()
	out := &workerOut{Stats: NewStats(), Index: -1, Known: map[string]int{}}
	sf, err := os.OpenFile(status, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var buf [8]byte
	start := time.Now()
	var digest uint64
	for idx := w; idx < total; idx += n {
		if idx%16 == w%16 && time.Since(start) > time.Duration(capS)*time.Second {
			out.Capped = true
			break
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(idx)+1)
		_, _ = sf.WriteAt(buf[:], 0)
		p := MakePlan(c, seed, tier, idx)
		p.Race = simrt.Race
		res := Run(t, p, out.Stats, false, tier)
		digest += Mix(uint64(idx) ^ Mix(res.Digest))
		if len(out.Stats.Samples) < 2 && len(p.Steps) > 0 && idx >= w {
			out.Stats.Samples = append(out.Stats.Samples, sample(p))
		}
		if res.Harness != "" {
			out.Harness = fmt.Sprintf("run %d: %s", idx, res.Harness)
			break
		}
		if res.V != nil {
			if k := known.match(res.V); k != "" {
				out.Known[k]++
				continue
			}
			out.Index = idx
			out.Orig = res.V
			out.OrigP = p
			// The shrinker may be killed by what it runs; leave the original behind.
			writeJSON(status+".v", out)
			deadline := time.Now().Add(60 * time.Second)
			out.Plan, out.V, out.Shrinks = Shrink(t, p, res.V, tier, 4000, func() bool { return time.Now().After(deadline) })
			break
		}
	}
	out.Stats.Digest = digest
	out.Stats.NStates = len(out.Stats.States)
	out.Stats.NShapes = len(out.Stats.Shapes)
	dumpSet(status+".states", out.Stats.States)
	dumpSet(status+".shapes", out.Stats.Shapes)
	writeJSON(status+".out", out)
	return 0
}

func dumpSet(path string, m map[uint64]struct{}) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	w := bufio.NewWriter(f)
	var b [8]byte
	for k := range m {
		binary.LittleEndian.PutUint64(b[:], k)
		_, _ = w.Write(b[:])
	}
	_ = w.Flush()
	_ = f.Close()
}

func loadSet(path string, m map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func sample(p *Plan) string {
	b, _ := json.Marshal(p)
	if len(b) > 700 {
		b = append(b[:700], "..."...)
	}
	return string(b)
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		panic(err)
	}
}

// self runs this binary with other arguments.
func self(args ...string) *exec.Cmd {
	return runBin(os.Args[0], args...)
}

func runBin(bin string, args ...string) *exec.Cmd {
	full := append([]string{"-test.run", "^TestSim$", "-test.timeout", "0", "-test.v=false", "--"}, args...)
	cmd := exec.Command(bin, full...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOGC=200", "GORACE=halt_on_error=1 exitcode=66")
	return cmd
}

// forPlan runs the binary that the plan asks for.
func forPlan(p *Plan, args ...string) *exec.Cmd {
	if p.Race && os.Getenv("NIMSIM_RACEBIN") != "" {
		return runBin(os.Getenv("NIMSIM_RACEBIN"), args...)
	}
	return self(args...)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func checkMain(prop, tier string, seed uint64) int {
	c := Checks[prop]
	if c == nil {
		fmt.Println("no check for", prop)
		return 2
	}
	start := time.Now()
	total, capS := c.Quick, 240
	if tier == "thorough" {
		total, capS = c.Thorough, 780
	}
	if v := os.Getenv("NIMSIM_RUNS"); v != "" {
		total = int(parseU(v))
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if v := os.Getenv("NIMSIM_WORKERS"); v != "" {
		workers = int(parseU(v))
	}
	if workers > total {
		workers = total
	}
	dir, err := os.MkdirTemp("", "nimsim-run-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	outs := make([]*workerOut, workers)
	crashes := make([]string, workers)
	crashIdx := make([]int, workers)
	hung := make([]bool, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			status := filepath.Join(dir, fmt.Sprintf("w%d", w))
			cmd := self("worker", prop, tier, strconv.FormatUint(seed, 10), strconv.Itoa(w), strconv.Itoa(workers), strconv.Itoa(total), strconv.Itoa(capS), status)
			var sb tailBuf
			cmd.Stdout, cmd.Stderr = &sb, &sb
			if err := cmd.Start(); err != nil {
				crashes[w] = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var werr error
			finished := false
			limit := time.After(time.Duration(capS+110) * time.Second)
			look := time.NewTicker(2 * time.Second)
			defer look.Stop()
			at, since := 0, time.Now()
			for !finished {
				select {
				case werr = <-done:
					finished = true
				case <-limit:
					_ = cmd.Process.Kill()
					<-done
					crashes[w] = "watchdog: worker did not finish"
					return
				case <-look.C:
					// Is it still in the same run, and not shrinking?
					if i := runOf(status); i != at {
						at, since = i, time.Now()
					}
					if _, err := os.Stat(status + ".v"); err == nil || at == 0 || time.Since(since) < hangAfter {
						continue
					}
					_ = cmd.Process.Kill()
					<-done
					crashes[w], crashIdx[w], hung[w] = fmt.Sprintf("watchdog: run %d did not finish", at-1), at, true
					return
				}
			}
			o := new(workerOut)
			if b, err := os.ReadFile(status + ".out"); err == nil && werr == nil && json.Unmarshal(b, o) == nil {
				outs[w] = o
				return
			}
			if b, err := os.ReadFile(status + ".v"); err == nil && json.Unmarshal(b, o) == nil && o.Orig != nil {
				// Died while shrinking.
				o.Plan, o.V = o.OrigP, o.Orig
				outs[w] = o
				return
			}
			crashes[w] = fmt.Sprintf("worker died: %v\n%s", werr, sb.String())
			crashIdx[w] = runOf(status)
		}()
	}
	wg.Wait()
	st := NewStats()
	var first *workerOut
	harness := ""
	capped := false
	knownHits := map[string]int{}
	for w, o := range outs {
		if o == nil {
			continue
		}
		for k, v := range o.Known {
			knownHits[k] += v
		}
		if o.Harness != "" {
			harness = o.Harness
		}
		capped = capped || o.Capped
		merge(st, o.Stats)
		loadSet(filepath.Join(dir, fmt.Sprintf("w%d.states", w)), st.States)
		loadSet(filepath.Join(dir, fmt.Sprintf("w%d.shapes", w)), st.Shapes)
		if o.V != nil && (first == nil || o.Index < first.Index) {
			first = o
		}
	}
	// A worker process that died may have been killed by the code under test.
	for w, msg := range crashes {
		if msg == "" || first != nil {
			continue
		}
		if crashIdx[w] == 0 {
			harness = msg
			continue
		}
		idx := crashIdx[w] - 1
		p := MakePlan(c, seed, tier, idx)
		if hung[w] {
			if _, again := execAgain(dir, p, tier); again {
				v := &Violation{prop, classHang, "the run does not end, and executes no instrumented statements meanwhile", -1}
				first = &workerOut{Index: idx, V: v, Orig: v, Plan: p, OrigP: p}
			} else {
				harness = msg
			}
		} else if crashesAgain(dir, p, tier) {
			v := &Violation{prop, "process crash", firstLine(msg), -1}
			p = shrinkCrash(dir, p, tier)
			first = &workerOut{Index: idx, V: v, Orig: v, Plan: p, OrigP: p}
		} else {
			harness = msg
		}
	}
	var rs *raceStats
	if first == nil && harness == "" && c.Race[0] > 0 {
		rs = raceStage(c, dir, tier, seed, workers)
		first = rs.first
	}
	wall := time.Since(start).Seconds()
	nv := 0
	replay := ""
	if first != nil {
		nv = 1
		var ok bool
		replay, ok = writeReplay(c, first, tier, seed)
		if !ok {
			fmt.Printf("violation did not reproduce from its replay file: %s %s\n", first.V.Class, first.V.Msg)
			harness = "not reproducible: " + first.V.Msg
			nv = 0
		}
	}
	writeEvidence(c, st, rs, tier, seed, total, workers, wall, nv, capped)
	var keys []string
	for k := range knownHits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s %s seed=%d: %d runs (%d distinct non-trivial), %d states, %.1f s simulated, %d workers, %.1f s, digest %016x\n",
		prop, tier, seed, st.Runs, len(st.Shapes), len(st.States), st.SimMS/1000, workers, wall, st.Digest)
	if rs != nil {
		fmt.Printf("race detector: %d runs, %d preemptions %s\n", rs.runs, rs.preemptions, rs.note)
	}
	if nv > 0 {
		fmt.Printf("violation at run %d, class %q: %s\n", first.Index, first.V.Class, first.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	if harness != "" {
		fmt.Println("error:", harness)
		return 2
	}
	if st.Foreign > 0 {
		fmt.Printf("note: %d runs ended early at observations that concern other properties, e.g. %s\n", st.Foreign, st.ForeignMsgs)
	}
	return 0
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 8000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string { return string(t.b) }

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// A run that takes this long hangs; most take milliseconds.
const (
	hangAfter  = 100 * time.Second
	hangReplay = 60 * time.Second
	classHang  = "process hang"
)

// runOf reads the index (plus one) of the run a worker is at.
func runOf(status string) int {
	if b, err := os.ReadFile(status); err == nil && len(b) == 8 {
		return int(binary.LittleEndian.Uint64(b))
	}
	return 0
}

func crashesAgain(dir string, p *Plan, tier string) bool {
	crash, _ := execAgain(dir, p, tier)
	return crash
}

// execAgain executes the plan in a process of its own and says whether that crashes or hangs.
func execAgain(dir string, p *Plan, tier string) (crash, hang bool) {
	f := filepath.Join(dir, "crash.json")
	writeJSON(f, &Replay{Plan: p, Tier: tier})
	cmd := forPlan(p, "exec", f)
	var sb tailBuf
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return false, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(hangReplay):
		_ = cmd.Process.Kill()
		<-done
		return false, true
	}
	code := cmd.ProcessState.ExitCode()
	if p.Race {
		return code == 66 && raceAt(sb.String()) != "", false
	}
	return code != 0 && code != 1 && code != 3, false
}

func shrinkCrash(dir string, p *Plan, tier string) *Plan {
	best := p.Clone()
	deadline := time.Now().Add(45 * time.Second)
	for n := len(best.Steps) / 2; n >= 1; n /= 2 {
		for i := 0; i < len(best.Steps) && time.Now().Before(deadline); {
			q := best.Clone()
			end := i + n
			if end > len(q.Steps) {
				end = len(q.Steps)
			}
			q.Steps = append(q.Steps[:i:i], q.Steps[end:]...)
			if crashesAgain(dir, q, tier) {
				best = q
			} else {
				i += n
			}
		}
	}
	return best
}

func writeReplay(c *Check, o *workerOut, tier string, seed uint64) (string, bool) {
	dir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.Property, seed, o.Index))
	plans := []*Plan{o.Plan, o.OrigP}
	for k, p := range plans {
		if p == nil {
			continue
		}
		v := o.V
		if k == 1 {
			v = o.Orig
		}
		r := &Replay{Plan: p, Violation: v, Tier: tier, OrigSteps: len(o.OrigP.Steps), Shrinks: o.Shrinks, VerifSeed: seed, Index: o.Index}
		writeJSON(path, r)
		for try := 0; try < 3; try++ {
			cmd := self("replay", path) // hands plans for the race detector on
			cmd.Env = append(cmd.Env, "NIMSIM_UPDATE=1")
			outp, _ := cmd.CombinedOutput()
			code := cmd.ProcessState.ExitCode()
			if code == 1 && strings.Contains(string(outp), "REPRODUCED") {
				return path, true
			}
			if v.Class == "process crash" && code != 0 && code != 1 && code != 3 {
				return path, true
			}
		}
	}
	return path, false
}

func replayMain(t *testing.T, path string) int {
	r, err := LoadReplay(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	if r.Plan.Race && !simrt.Race {
		return replayRace(r, path)
	}
	runtime.GOMAXPROCS(1)
	if r.Violation != nil && r.Violation.Class == classHang {
		time.AfterFunc(hangReplay, func() {
			fmt.Printf("violation: class %q: the run did not end within %s\nREPRODUCED\nVIOLATION property=%s replay=%s\n", classHang, hangReplay, r.Plan.Property, path)
			os.Exit(1)
		})
	}
	res := Run(t, r.Plan, NewStats(), true, r.Tier)
	for _, l := range res.Lines {
		fmt.Println(l)
	}
	if res.Harness != "" {
		fmt.Println("error:", res.Harness)
		return 3
	}
	if res.V == nil {
		fmt.Println("no violation", res.Foreign)
		return 0
	}
	fmt.Printf("violation: class %q step %d: %s\n", res.V.Class, res.V.Step, res.V.Msg)
	if os.Getenv("NIMSIM_UPDATE") != "" {
		r.Log = res.Lines
		r.Digest = res.Digest
		r.Violation = res.V
		writeJSON(path, r)
	} else if r.Digest != 0 && r.Digest != res.Digest {
		fmt.Println("note: event log differs from the recorded one")
	}
	if r.Violation == nil || r.Violation.Class == res.V.Class {
		fmt.Println("REPRODUCED")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Plan.Property, path)
	return 1
}

func execMain(t *testing.T, path string) int {
	r, err := LoadReplay(path)
	if err != nil {
		return 3
	}
	runtime.GOMAXPROCS(1)
	debug.SetMemoryLimit(3 << 30)
	Run(t, r.Plan, NewStats(), false, r.Tier)
	return 0
}

func oneMain(t *testing.T, prop, tier string, seed uint64, idx int) int {
	c := Checks[prop]
	p := MakePlan(c, seed, tier, idx)
	b, _ := json.MarshalIndent(p, "", " ")
	if os.Getenv("NIMSIM_PLAN") != "" {
		fmt.Println(string(b))
	}
	st := NewStats()
	res := Run(t, p, st, true, tier)
	for _, l := range res.Lines {
		fmt.Println(l)
	}
	fmt.Printf("counts %v nontrivial %d steps %d digest %016x\n", st.Counts, st.Nontrivial, st.Steps, res.Digest)
	fmt.Println(res.V, res.Foreign, res.Harness)
	return 0
}

func merge(a, b *Stats) {
	a.Runs += b.Runs
	a.Nontrivial += b.Nontrivial
	a.SimMS += b.SimMS
	a.Steps += b.Steps
	a.Digest += b.Digest
	a.Foreign += b.Foreign
	for k, v := range b.Counts {
		a.Counts[k] += v
	}
	if len(a.Samples) < 3 {
		a.Samples = append(a.Samples, b.Samples...)
		if len(a.Samples) > 3 {
			a.Samples = a.Samples[:3]
		}
	}
	if len(a.ForeignMsgs) < 3 {
		a.ForeignMsgs = append(a.ForeignMsgs, b.ForeignMsgs...)
	}
}

func writeEvidence(c *Check, st *Stats, rs *raceStats, tier string, seed uint64, planned, workers int, wall float64, nv int, capped bool) {
	faults := map[string]int64{}
	probes := map[string]int64{}
	ops := map[string]int64{}
	for k, v := range st.Counts {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[strings.TrimPrefix(k, "fault.")] = v
		case strings.HasPrefix(k, "op."):
			ops[strings.TrimPrefix(k, "op.")] = v
		default:
			probes[k] = v
		}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(st.Runs) / wall * 3600
	}
	var samples []interface{}
	for _, s := range st.Samples {
		samples = append(samples, s)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	level := c.Level
	if level == "" {
		level = "exploration"
	}
	build, _ := os.ReadFile(os.Getenv("NIMSIM_INSTR"))
	var instr interface{}
	_ = json.Unmarshal(build, &instr)
	ev := map[string]interface{}{
		"property": c.Property,
		"tier":     tier,
		"seed":     seed,
		"level":    level,
		"coverage": map[string]interface{}{
			"evaluations":           st.Runs,
			"distinct_nontrivial":   len(st.Shapes),
			"rule":                  c.Rule,
			"samples":               samples,
			"runs_planned":          planned,
			"wall_cap_hit":          capped,
			"workers":               workers,
			"runs_per_hour":         int64(perHour),
			"seeds_per_hour":        int64(perHour),
			"simulated_time_s":      st.SimMS / 1000,
			"faults_injected":       faults,
			"operations":            ops,
			"probes":                probes,
			"distinct_states":       len(st.States),
			"distinct_states_rule":  c.Measure,
			"instrumented_yields":   st.Steps,
			"event_log_digest":      fmt.Sprintf("%016x", st.Digest),
			"components_real":       c.Real,
			"components_stub":       c.Stub,
			"instrumentation":       instr,
			"instrumentation_level": os.Getenv("NIMSIM_MODE"),
			"runs_cut_short_by_observations_about_other_properties": st.Foreign,
		},
		"assumptions": c.Assume,
		"wall_s":      wall,
		"violations":  nv,
	}
	if rs != nil {
		cov := ev["coverage"].(map[string]interface{})
		cov["race_detector_runs"] = rs.runs
		cov["race_detector_preemptions"] = rs.preemptions
		cov["race_detector_note"] = rs.note
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, c.Property+".json"), ev)
}

type knownList []struct{ prop, class, contains, text string }

// loadKnown reads the findings: lines "finding: property=<id> class=<class> | contains | text".
func loadKnown() knownList {
	var out knownList
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	b, _ := io.ReadAll(f)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " | ", 4)
		if len(parts) != 4 {
			continue
		}
		out = append(out, struct{ prop, class, contains, text string }{parts[0], parts[1], parts[2], parts[3]})
	}
	return out
}

func (k knownList) match(v *Violation) string {
	for _, e := range k {
		if e.prop == v.Property && e.class == v.Class && strings.Contains(v.Msg, e.contains) {
			return e.text
		}
	}
	return ""
}
