// Package fw runs properties: it generates cases from a fixed seed, checks them
// in parallel, shrinks the first failure of a stage to a small reproduction,
// writes it as a replay file, and records what was covered.
package fw

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// R is a deterministic random source for one case.
type R struct{ *rand.Rand }

func NewR(seed uint64, name string, i uint64) *R {
	h := fnv.New64a()
	h.Write([]byte(name))
	return &R{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+h.Sum64(), i*0xD1B54A32D192ED03+0x632BE59BD9B4E019))}
}

func (r *R) U64() uint64               { return r.Uint64() }
func (r *R) N(n int) int               { return r.IntN(n) }
func (r *R) Bool() bool                { return r.Uint64()&1 == 1 }
func (r *R) P(num, den int) bool       { return r.IntN(den) < num }
func (r *R) Range(lo, hi int) int      { return lo + r.IntN(hi-lo+1) }
func (r *R) Pick(xs ...int) int        { return xs[r.IntN(len(xs))] }
func (r *R) PickS(xs ...string) string { return xs[r.IntN(len(xs))] }

// Hex is a bit pattern printed in hexadecimal.
type Hex uint64

func (h Hex) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"0x%x"`, uint64(h))), nil }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	var v uint64
	if _, err := fmt.Sscanf(s, "0x%x", &v); err != nil {
		return err
	}
	*h = Hex(v)
	return nil
}

// Unit is one evaluation inside a case.
type Unit struct {
	Hash       uint64
	NonTrivial bool
	Label      string
}

// H hashes values to a unit hash.
func H(xs ...uint64) uint64 {
	var h uint64 = 14695981039346656037
	for _, x := range xs {
		h ^= x
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
	}
	return h
}

func HS(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Stage is one generated check of a property.
type Stage[C any] struct {
	Name    string
	N       int // cases
	Gen     func(r *R, i int) C
	Check   func(c C) string // "" when the property holds on c
	Shrink  func(c C) []C
	Units   func(c C) []Unit
	Finding func(c C, why string) string // key of the finding a failure belongs to
	Serial  bool
}

// Ctx is one run of one property.
type Ctx struct {
	ID, Tier string
	Seed     uint64
	Rule     string
	Assume   []string
	Root     string // /verif

	replay *Replay

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	nontriv  int64
	labels   map[string]int64
	samples  []any
	stages   []map[string]any
	extra    map[string]any
	viol     int
	known    map[string]string // key -> text
	knownHit map[string]int64
	start    time.Time
	exhaust  bool
	deadline time.Time
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Stage    string          `json:"stage"`
	Why      string          `json:"why"`
	Case     json.RawMessage `json:"case"`
}

// Replaying tells whether a replay file is run.
func (x *Ctx) Replaying() bool { return x.replay != nil }

func NewCtx(id, tier string, seed uint64, root string, replay *Replay) *Ctx {
	x := &Ctx{ID: id, Tier: tier, Seed: seed, Root: root, replay: replay,
		distinct: map[uint64]struct{}{}, labels: map[string]int64{}, extra: map[string]any{},
		known: map[string]string{}, knownHit: map[string]int64{}, start: time.Now()}
	x.loadKnown()
	// a slow machine explores less rather than running out of its time
	x.deadline = x.start.Add(8 * time.Minute)
	if x.Thorough() {
		x.deadline = x.start.Add(45 * time.Minute)
	}
	return x
}

// loadKnown reads the committed list of findings: lines
// "known: property=<id> key=<key> <text>".
func (x *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(x.Root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+x.ID || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		x.known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
}

func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Scale picks a case count by tier.
func (x *Ctx) Scale(quick, thorough int) int {
	if x.Thorough() {
		return thorough
	}
	return quick
}

func (x *Ctx) Extra(k string, v any) {
	x.mu.Lock()
	x.extra[k] = v
	x.mu.Unlock()
}

func (x *Ctx) Exhaustive() { x.exhaust = true }

// Run executes a stage.
func Run[C any](x *Ctx, s Stage[C]) {
	if x.replay != nil {
		if x.replay.Stage != s.Name {
			return
		}
		var c C
		if err := json.Unmarshal(x.replay.Case, &c); err != nil {
			fatal("bad replay case: %v", err)
		}
		why := s.Check(c)
		fmt.Printf("replay %s/%s: %s\n", x.ID, s.Name, orOK(why))
		if why != "" {
			x.viol++
		}
		return
	}
	t0 := time.Now()
	type fail struct {
		i   int
		c   C
		why string
	}
	var (
		next  atomic.Int64
		fmu   sync.Mutex
		first *fail
		wg    sync.WaitGroup
		stop  atomic.Bool
		cut   atomic.Bool
		evals int64
	)
	nw := runtime.GOMAXPROCS(0)
	if s.Serial {
		nw = 1
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lab := map[string]int64{}
			var ev, nt int64
			var hs []uint64
			for {
				i := int(next.Add(1)) - 1
				if i >= s.N || stop.Load() {
					break
				}
				if i&15 == 0 && time.Now().After(x.deadline) {
					cut.Store(true)
					stop.Store(true)
					break
				}
				c := s.Gen(NewR(x.Seed, x.ID+"/"+s.Name, uint64(i)), i)
				why := s.Check(c)
				if s.Units != nil {
					for _, u := range s.Units(c) {
						ev++
						if u.NonTrivial {
							nt++
							hs = append(hs, u.Hash)
						}
						if u.Label != "" {
							lab[s.Name+":"+u.Label]++
						}
					}
				} else {
					ev++
					nt++
					b, _ := json.Marshal(c)
					hs = append(hs, HS(string(b)))
				}
				if why != "" {
					key := ""
					if s.Finding != nil {
						key = s.Finding(c, why)
					}
					if _, ok := x.known[key]; ok && key != "" {
						x.mu.Lock()
						x.knownHit[key]++
						x.mu.Unlock()
						continue
					}
					fmu.Lock()
					// keep the failure with the lowest index so that the outcome
					// does not depend on scheduling more than necessary
					if first == nil || i < first.i {
						first = &fail{i, c, why}
					}
					fmu.Unlock()
					stop.Store(true)
				} else if i < 2 {
					x.mu.Lock()
					if len(x.samples) < 40 {
						x.samples = append(x.samples, map[string]any{"stage": s.Name, "case": trunc(c)})
					}
					x.mu.Unlock()
				}
			}
			x.mu.Lock()
			x.evals += ev
			evals += ev
			x.nontriv += nt
			for _, h := range hs {
				x.distinct[h^HS(s.Name)] = struct{}{}
			}
			for k, v := range lab {
				x.labels[k] += v
			}
			x.mu.Unlock()
		}()
	}
	wg.Wait()
	x.stages = append(x.stages, map[string]any{"stage": s.Name, "cases": s.N, "evaluations": evals, "cut_by_time": cut.Load(), "seconds": round2(time.Since(t0).Seconds())})
	if first != nil {
		c, why := first.c, first.why
		n := 0
		if s.Shrink != nil {
			c, why, n = shrink(x, s, c, why)
		}
		x.violation(s.Name, c, why, n)
	}
}

// shrink greedily replaces the case by smaller failing ones.
func shrink[C any](x *Ctx, s Stage[C], c C, why string) (C, string, int) {
	deadline := time.Now().Add(40 * time.Second)
	n := 0
	for round := 0; round < 200; round++ {
		improved := false
		for _, d := range s.Shrink(c) {
			if time.Now().After(deadline) || n > 3000 {
				return c, why, n
			}
			n++
			w := s.Check(d)
			if w == "" {
				continue
			}
			if s.Finding != nil {
				if _, ok := x.known[s.Finding(d, w)]; ok {
					continue
				}
			}
			c, why = d, w
			improved = true
			break
		}
		if !improved {
			break
		}
	}
	return c, why, n
}

func (x *Ctx) violation(stage string, c any, why string, shrinks int) {
	b, err := json.Marshal(c)
	if err != nil {
		fatal("cannot encode case: %v", err)
	}
	rp := Replay{x.ID, stage, why, b}
	out, _ := json.MarshalIndent(rp, "", " ")
	dir := filepath.Join(x.Root, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", x.ID, stage, HS(string(b))&0xffffffff))
	if err := os.WriteFile(p, append(out, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	x.mu.Lock()
	x.viol++
	x.mu.Unlock()
	fmt.Printf("stage %s: %s\n  case (after %d shrink attempts): %s\n", stage, why, shrinks, clip(string(b), 2000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.ID, p)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func trunc(c any) any {
	b, _ := json.Marshal(c)
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}
	return json.RawMessage(b)
}

func orOK(s string) string {
	if s == "" {
		return "holds"
	}
	return "FAILS: " + s
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", a...)
	os.Exit(3)
}

// Fatal ends the run with an error exit.
func Fatal(format string, a ...any) { fatal(format, a...) }

// Finish writes the evidence file and returns the exit code.
func (x *Ctx) Finish() int {
	if x.replay != nil {
		if x.viol > 0 {
			return 1
		}
		return 0
	}
	keys := make([]string, 0)
	for k := range x.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if x.knownHit[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", x.ID, x.known[k], x.knownHit[k])
		}
	}
	cov := map[string]any{
		"evaluations":         x.evals,
		"nontrivial":          x.nontriv,
		"distinct_nontrivial": len(x.distinct),
		"rule":                x.Rule,
		"samples":             x.samples,
		"classes":             x.labels,
		"stages":              x.stages,
	}
	if x.exhaust {
		cov["exhaustive_stages"] = true
	}
	for k, v := range x.extra {
		cov[k] = v
	}
	if len(keys) > 0 {
		cov["known_finding_cases"] = x.knownHit
	}
	ev := map[string]any{
		"property": x.ID, "tier": x.Tier, "seed": x.Seed, "level": "exploration",
		"coverage": cov, "wall_s": round2(time.Since(x.start).Seconds()),
		"violations": x.viol, "assumptions": x.Assume,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Join(x.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(x.Root, "evidence", x.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n",
		x.ID, x.Tier, x.Seed, x.evals, len(x.distinct), x.viol, time.Since(x.start).Seconds())
	if x.viol > 0 {
		return 1
	}
	return 0
}
