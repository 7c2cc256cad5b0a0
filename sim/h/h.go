// Package h is the simulation framework: seeded plans, deterministic execution,
// minimisation, replay files and evidence.
package h

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"nimsim/simrt"
)

// Rand is the only source of randomness (splitmix64).
type Rand struct{ s uint64 }

// NewRand creates a generator.
func NewRand(seed uint64) *Rand { return &Rand{seed} }

// U64 draws 64 bits.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

// Mix is a 64-bit finaliser.
func Mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn draws from [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range draws from [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability p percent.
func (r *Rand) P(p int) bool { return r.Intn(100) < p }

// Float draws from [0,1).
func (r *Rand) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Bytes draws n bytes.
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Fill(b)
	return b
}

// Fill fills b.
func (r *Rand) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.U64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Geo draws a number with a geometric distribution of the given mean.
func (r *Rand) Geo(mean int) int {
	if mean <= 0 {
		return 0
	}
	n := 0
	for r.Intn(mean+1) != 0 && n < mean*20 {
		n++
	}
	return n
}

// Weighted picks an index by weight.
func (r *Rand) Weighted(w []int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	k := r.Intn(sum)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Perm is a random permutation.
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Step is one decision of a plan.
type Step struct {
	Op string  `json:"op"`
	A  []int64 `json:"a,omitempty"`
}

// Arg returns an argument, zero if absent.
func (s *Step) Arg(i int) int64 {
	if i < len(s.A) {
		return s.A[i]
	}
	return 0
}

// UArg returns an argument as an unsigned number.
func (s *Step) UArg(i int) uint64 { return uint64(s.Arg(i)) }

// Mod returns the argument reduced to [0,n).
func (s *Step) Mod(i, n int) int {
	if n <= 0 {
		return 0
	}
	return int(uint64(s.Arg(i)) % uint64(n))
}

// Plan is a complete, explicit simulated execution.
type Plan struct {
	Property string           `json:"property"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Cfg      map[string]int64 `json:"cfg,omitempty"`
	Steps    []Step           `json:"steps"`
	Sched    *simrt.Plan      `json:"sched,omitempty"`
	Race     bool             `json:"race,omitempty"` // run under the race detector
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	q := *p
	q.Cfg = map[string]int64{}
	for k, v := range p.Cfg {
		q.Cfg[k] = v
	}
	q.Steps = make([]Step, len(p.Steps))
	for i, s := range p.Steps {
		q.Steps[i] = Step{s.Op, append([]int64(nil), s.A...)}
	}
	if p.Sched != nil {
		q.Sched = &simrt.Plan{
			Prio:   append([]int(nil), p.Sched.Prio...),
			Points: append([]uint64(nil), p.Sched.Points...),
			Hot:    append([]uint64(nil), p.Sched.Hot...),
		}
	}
	return &q
}

// Add appends a step.
func (p *Plan) Add(op string, a ...int64) { p.Steps = append(p.Steps, Step{op, a}) }

// Violation is a broken property.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
	Step     int    `json:"step"`
}

// Stats are measured during runs.
type Stats struct {
	Runs        int                 `json:"runs"`
	Nontrivial  int                 `json:"nontrivial"`
	Counts      map[string]int64    `json:"counts"` // faults, probes, operations
	SimMS       float64             `json:"sim_ms"`
	Steps       int64               `json:"steps"` // yields of instrumented code
	States      map[uint64]struct{} `json:"-"`
	NStates     int                 `json:"states"`
	Shapes      map[uint64]struct{} `json:"-"`
	NShapes     int                 `json:"shapes"`
	Digest      uint64              `json:"digest"`
	Samples     []string            `json:"samples"`
	Foreign     int                 `json:"foreign"`
	ForeignMsgs []string            `json:"foreign_msgs,omitempty"`
}

// NewStats creates empty stats.
func NewStats() *Stats {
	return &Stats{Counts: map[string]int64{}, States: map[uint64]struct{}{}, Shapes: map[uint64]struct{}{}}
}

// Ctx is handed to executors.
type Ctx struct {
	T       *testing.T
	Prop    string
	Plan    *Plan
	St      *Stats
	Verbose bool
	Lines   []string
	digest  uint64
	CurStep int
	nontriv bool
	pending map[string]int64
	states  []uint64
	Tier    string
}

type failToken struct{ v *Violation }
type foreignToken struct{ msg string }

// Log records an event of the run.
func (x *Ctx) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		x.digest = (x.digest ^ uint64(s[i])) * 1099511628211
	}
	x.digest = Mix(x.digest + 1)
	if x.Verbose {
		if len(x.Lines) < 400 {
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			x.Lines = append(x.Lines, s)
		}
	}
}

// Note mixes raw data into the log digest without formatting.
func (x *Ctx) Note(b []byte) {
	d := x.digest
	for _, c := range b {
		d = (d ^ uint64(c)) * 1099511628211
	}
	x.digest = d
}

// Count counts a fault, probe or operation.
func (x *Ctx) Count(key string) { x.pending[key]++ }

// CountN counts n.
func (x *Ctx) CountN(key string, n int) {
	if n != 0 {
		x.pending[key] += int64(n)
	}
}

// State records a reached abstract state.
func (x *Ctx) State(h uint64) { x.states = append(x.states, h) }

// StateBytes records a reached state by content.
func (x *Ctx) StateBytes(b []byte) { x.State(HashBytes(b)) }

// HashBytes is FNV-1a with a finaliser.
func HashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return Mix(h)
}

// Nontrivial marks the run as having exercised the property.
func (x *Ctx) Nontrivial() { x.nontriv = true }

// Sim adds simulated time.
func (x *Ctx) Sim(ms float64) { x.St.SimMS += ms }

// Fail ends the run with a violation. props lists the properties the
// observation contradicts, separated by spaces.
func (x *Ctx) Fail(props, class, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	for _, p := range strings.Fields(props) {
		if p == x.Prop {
			panic(failToken{&Violation{x.Prop, class, msg, x.CurStep}})
		}
	}
	panic(foreignToken{props + " " + class + ": " + msg})
}

// Is reports whether the run is for one of the properties.
func (x *Ctx) Is(props string) bool {
	for _, p := range strings.Fields(props) {
		if p == x.Prop {
			return true
		}
	}
	return false
}

// PanicInfo describes a recovered panic.
type PanicInfo struct {
	Val  interface{}
	Repo bool // raised by repository code
	At   string
}

func (p *PanicInfo) String() string { return fmt.Sprintf("panic: %v (at %s)", p.Val, p.At) }

// Class is a stable name of the panic.
func (p *PanicInfo) Class() string {
	return "panic at " + p.At
}

// Catch runs f and returns its panic, if any. Framework panics pass through.
func Catch(f func()) (pi *PanicInfo) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failToken, foreignToken:
				panic(r)
			case simrt.Killed:
				panic(r)
			}
			repo, at := whose()
			pi = &PanicInfo{r, repo, at}
			if _, ok := r.(simrt.StepLimit); ok {
				pi.Repo = true
				pi.At = "step budget"
			}
		}
	}()
	f()
	return nil
}

// whose finds out which code raised the panic being recovered.
func whose() (repo bool, at string) {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	seenPanic := false
	for {
		f, more := frames.Next()
		if f.Function == "runtime.gopanic" || strings.HasPrefix(f.Function, "runtime.panic") || strings.HasPrefix(f.Function, "runtime.goPanic") || f.Function == "runtime.sigpanic" {
			seenPanic = true
		} else if seenPanic && !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "reflect.") {
			if strings.HasPrefix(f.Function, "nimsim/simrt") || strings.HasPrefix(f.Function, "nimsim/simsync") || strings.HasPrefix(f.Function, "nimsim/simos") {
				// Runtime of the simulation, called by the code under test.
			} else if strings.HasPrefix(f.Function, "nimsim") {
				return false, f.Function
			} else if strings.HasPrefix(f.Function, "terorie.dev/nimiq") {
				return true, f.Function
			}
		}
		if !more {
			return false, "?"
		}
	}
}

// RunResult is the outcome of one run.
type RunResult struct {
	V       *Violation
	Foreign string
	Harness string // trouble in the harness itself
	Digest  uint64
	Lines   []string
}

const defaultBudget = 2_000_000_000

// Scenario executes plans.
type Scenario struct {
	Name   string
	Exec   func(x *Ctx, p *Plan)
	Budget uint64
}

// Scenarios by name.
var Scenarios = map[string]*Scenario{}

// Register adds a scenario.
func Register(s *Scenario) { Scenarios[s.Name] = s }

// Check is how one property is decided.
type Check struct {
	Property string
	Quick    int // runs
	Thorough int
	Race     [2]int // runs under the race detector, quick and thorough
	Gen      func(r *Rand, tier string, idx int) *Plan
	Level    string
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	Measure  string // what states count
	Faults   []string
}

// Checks by property.
var Checks = map[string]*Check{}

// RegisterCheck adds a check.
func RegisterCheck(c *Check) { Checks[c.Property] = c }

// Run executes a plan once.
func Run(t *testing.T, p *Plan, st *Stats, verbose bool, tier string) (res RunResult) {
	sc := Scenarios[p.Scenario]
	if sc == nil {
		res.Harness = "unknown scenario " + p.Scenario
		return
	}
	budget := sc.Budget
	if budget == 0 {
		budget = defaultBudget
	}
	x := &Ctx{T: t, Prop: p.Property, Plan: p, St: st, Verbose: verbose, pending: map[string]int64{}, Tier: tier}
	// Commands under test define their flags anew.
	simrt.Begin(p.Seed, budget)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch v := r.(type) {
			case failToken:
				res.V = v.v
			case foreignToken:
				res.Foreign = v.msg
			case simrt.StepLimit:
				res.V = &Violation{p.Property, "no termination", "step budget exceeded", x.CurStep}
			default:
				repo, at := whose()
				if repo {
					res.V = &Violation{p.Property, "panic at " + at, fmt.Sprintf("panic: %v", r), x.CurStep}
				} else {
					res.Harness = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
				}
			}
		}()
		sc.Exec(x, p)
	}()
	n, _ := simrt.Counters()
	st.Steps += int64(n)
	st.Runs++
	if x.nontriv {
		st.Nontrivial++
		st.Shapes[planShape(p)] = struct{}{}
	}
	for k, v := range x.pending {
		st.Counts[k] += v
	}
	for _, s := range x.states {
		if len(st.States) < 4_000_000 {
			st.States[s] = struct{}{}
		}
	}
	if res.Foreign != "" {
		st.Foreign++
		if len(st.ForeignMsgs) < 3 {
			st.ForeignMsgs = append(st.ForeignMsgs, res.Foreign)
		}
	}
	res.Digest = x.digest
	res.Lines = x.Lines
	return
}

func planShape(p *Plan) uint64 {
	d := uint64(len(p.Steps))
	mix := func(v uint64) { d = Mix(d*31 + v) }
	keys := make([]string, 0, len(p.Cfg))
	for k := range p.Cfg {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		mix(HashBytes([]byte(k)) ^ uint64(p.Cfg[k]))
	}
	for _, s := range p.Steps {
		mix(HashBytes([]byte(s.Op)))
		for _, a := range s.A {
			mix(uint64(a))
		}
	}
	if p.Sched != nil {
		for _, v := range p.Sched.Prio {
			mix(uint64(v))
		}
		for _, v := range p.Sched.Points {
			mix(v)
		}
		for _, v := range p.Sched.Hot {
			mix(v + 1)
		}
	}
	return d
}

// Shrink minimises a failing plan while its violation class persists.
func Shrink(t *testing.T, p *Plan, v *Violation, tier string, maxRuns int, expired func() bool) (*Plan, *Violation, int) {
	best, bestV := p.Clone(), v
	runs := 0
	try := func(q *Plan) bool {
		if runs >= maxRuns || expired() {
			return false
		}
		runs++
		res := Run(t, q, NewStats(), false, tier)
		if res.V != nil && res.V.Class == v.Class {
			best, bestV = q, res.V
			return true
		}
		return false
	}
	// Steps behind the failing one cannot matter, usually.
	if v.Step >= 0 && v.Step+1 < len(best.Steps) {
		q := best.Clone()
		q.Steps = q.Steps[:v.Step+1]
		try(q)
	}
	for pass := 0; pass < 4; pass++ {
		before := runs
		size := func() int { b, _ := json.Marshal(best); return len(b) }
		s0 := size()
		// Remove steps.
		for n := len(best.Steps) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(best.Steps); {
				q := best.Clone()
				end := i + n
				if end > len(q.Steps) {
					end = len(q.Steps)
				}
				q.Steps = append(q.Steps[:i:i], q.Steps[end:]...)
				if !try(q) {
					i += n
				}
			}
		}
		if best.Sched != nil {
			shrinkPoints(best, func(p *Plan) *[]uint64 { return &p.Sched.Points }, try, func() *Plan { return best })
			shrinkPoints(best, func(p *Plan) *[]uint64 { return &p.Sched.Hot }, try, func() *Plan { return best })
		}
		// Configuration.
		keys := make([]string, 0)
		for k := range best.Cfg {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if best.Cfg[k] != 0 {
				q := best.Clone()
				q.Cfg[k] = 0
				if !try(q) && best.Cfg[k] > 1 {
					q := best.Clone()
					q.Cfg[k] = 1
					try(q)
				}
			}
		}
		// Arguments.
		for i := range best.Steps {
			for j := 0; j < len(best.Steps[i].A); j++ {
				cur := best.Steps[i].A[j]
				if cur == 0 {
					continue
				}
				q := best.Clone()
				q.Steps[i].A[j] = 0
				if try(q) {
					continue
				}
				for k := 0; k < 12; k++ {
					cur = best.Steps[i].A[j]
					half := cur / 2
					if half == cur {
						break
					}
					q := best.Clone()
					q.Steps[i].A[j] = half
					if !try(q) {
						if cur > 1 || cur < -1 {
							q := best.Clone()
							if cur > 0 {
								q.Steps[i].A[j] = cur - 1
							} else {
								q.Steps[i].A[j] = cur + 1
							}
							if !try(q) {
								break
							}
						} else {
							break
						}
					}
				}
			}
		}
		if size() == s0 || runs == before || runs >= maxRuns || expired() {
			break
		}
	}
	return best, bestV, runs
}

func shrinkPoints(_ *Plan, get func(*Plan) *[]uint64, try func(*Plan) bool, best func() *Plan) {
	for n := len(*get(best())); n >= 1; n /= 2 {
		for i := 0; i < len(*get(best())); {
			q := best().Clone()
			pts := get(q)
			end := i + n
			if end > len(*pts) {
				end = len(*pts)
			}
			*pts = append((*pts)[:i:i], (*pts)[end:]...)
			if !try(q) {
				i += n
			}
		}
	}
}

// Replay is the content of a replay file.
type Replay struct {
	Plan      *Plan      `json:"plan"`
	Violation *Violation `json:"violation"`
	Tier      string     `json:"tier"`
	Digest    uint64     `json:"digest"`
	OrigSteps int        `json:"original_steps"`
	Shrinks   int        `json:"shrink_runs"`
	VerifSeed uint64     `json:"verif_seed"`
	Index     int        `json:"index"`
	Log       []string   `json:"log"`
}

// LoadReplay reads a replay file.
func LoadReplay(path string) (*Replay, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := new(Replay)
	return r, json.Unmarshal(b, r)
}

// RunSeed derives the seed of run idx.
func RunSeed(verifSeed uint64, prop string, idx int) uint64 {
	return Mix(Mix(verifSeed+0x1234567) ^ HashBytes([]byte(prop)) ^ Mix(uint64(idx)*0x9e3779b97f4a7c15+77))
}

// MakePlan generates the plan of run idx.
func MakePlan(c *Check, verifSeed uint64, tier string, idx int) *Plan {
	seed := RunSeed(verifSeed, c.Property, idx)
	r := NewRand(seed)
	p := c.Gen(r, tier, idx)
	p.Property = c.Property
	if p.Seed == 0 {
		p.Seed = seed
	}
	if p.Cfg == nil {
		p.Cfg = map[string]int64{}
	}
	return p
}
