package h

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"encoding/json"
)

// Runs under the race detector. Threads still run one at a time and the plan
// decides the schedule, so a run is as repeatable as any other. The detector sees
// the accesses of the code under test and only the synchronisation that code does
// itself: two accesses that only the simulator put in order are reported.

type raceStats struct {
	runs        int
	preemptions int64
	note        string
	first       *workerOut
}

var (
	raceFrame  = regexp.MustCompile(`(?m)^  (terorie\.dev/nimiq\S*)\(`)
	raceAccess = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) at `)
)

// raceAt names the innermost repository functions of a reported race.
// It is empty unless both accesses were made by repository code or on its behalf.
func raceAt(out string) string {
	i := strings.Index(out, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	out = out[i:]
	if j := strings.Index(out[10:], "=================="); j >= 0 {
		out = out[:10+j]
	}
	var at []string
	for _, part := range strings.Split(out, "\n\n") {
		if raceAccess.FindStringIndex(part) == nil {
			continue
		}
		m := raceFrame.FindStringSubmatch(part)
		if m == nil {
			return ""
		}
		at = append(at, m[1])
	}
	if len(at) < 2 {
		return ""
	}
	return strings.Join(at, " and ")
}

func raceStage(c *Check, dir, tier string, seed uint64, workers int) *raceStats {
	rs := &raceStats{}
	bin := os.Getenv("NIMSIM_RACEBIN")
	if _, err := os.Stat(bin); bin == "" || err != nil {
		rs.note = "(not built)"
		return rs
	}
	total, capS := c.Race[0], 120
	if tier == "thorough" {
		total, capS = c.Race[1], 200
	}
	if workers > total {
		workers = total
	}
	var (
		wg sync.WaitGroup
		mu sync.Mutex
	)
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			status := filepath.Join(dir, fmt.Sprintf("race%d", w))
			cmd := runBin(bin, "worker", c.Property, tier, strconv.FormatUint(seed, 10), strconv.Itoa(w), strconv.Itoa(workers), strconv.Itoa(total), strconv.Itoa(capS), status)
			var sb tailBuf
			cmd.Stdout, cmd.Stderr = &sb, &sb
			if err := cmd.Start(); err != nil {
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case <-done:
			case <-time.After(time.Duration(capS+60) * time.Second):
				_ = cmd.Process.Kill()
				<-done
			}
			mu.Lock()
			defer mu.Unlock()
			code := cmd.ProcessState.ExitCode()
			o := new(workerOut)
			if b, err := os.ReadFile(status + ".out"); err == nil && code == 0 && json.Unmarshal(b, o) == nil {
				// Other violations are for the runs without the detector.
				rs.runs += o.Stats.Runs
				rs.preemptions += o.Stats.Counts["fault.preemption"]
				return
			}
			b, err := os.ReadFile(status)
			if err != nil || len(b) != 8 || binary.LittleEndian.Uint64(b) == 0 {
				rs.note += " (a worker failed: " + firstLine(sb.String()) + ")"
				return
			}
			idx := int(binary.LittleEndian.Uint64(b)) - 1
			at := raceAt(sb.String())
			if code != 66 || at == "" {
				rs.note += fmt.Sprintf(" (worker ended at run %d with status %d: %s)", idx, code, firstLine(sb.String()))
				return
			}
			if rs.first == nil || idx < rs.first.Index {
				p := MakePlan(c, seed, tier, idx)
				p.Race = true
				v := &Violation{c.Property, "data race", "unsynchronised accesses in " + at, -1}
				rs.first = &workerOut{Index: idx, V: v, Orig: v, Plan: p, OrigP: p}
			}
		}()
	}
	wg.Wait()
	if rs.first != nil {
		if crashesAgain(dir, rs.first.OrigP, tier) {
			rs.first.Plan = shrinkCrash(dir, rs.first.OrigP, tier)
		} else {
			rs.note += " (" + rs.first.V.Msg + " was seen once and not again)"
			rs.first = nil
		}
	}
	return rs
}

// replayRace runs the plan of a replay file under the race detector.
func replayRace(r *Replay, path string) int {
	if os.Getenv("NIMSIM_RACEBIN") == "" {
		fmt.Println("error: no binary with the race detector")
		return 3
	}
	out, _ := forPlan(r.Plan, "exec", path).CombinedOutput()
	at := raceAt(string(out))
	if at == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Println(strings.TrimSpace(string(out)))
	v := &Violation{r.Plan.Property, "data race", "unsynchronised accesses in " + at, -1}
	fmt.Printf("violation: class %q: %s\n", v.Class, v.Msg)
	if os.Getenv("NIMSIM_UPDATE") != "" {
		r.Violation = v
		r.Log = strings.Split(string(out), "\n")
		writeJSON(path, r)
	}
	fmt.Println("REPRODUCED")
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Plan.Property, path)
	return 1
}
