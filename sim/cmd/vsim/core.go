package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/sim/overlay"
	"verif/sim/proto"
)

// Rand is the only source of randomness of the driver.
type Rand struct{ s uint64 }

func NewRand(parts ...interface{}) *Rand {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	var s uint64
	for i := 0; i < 8; i++ {
		s = s<<8 | uint64(h[i])
	}
	return &Rand{s}
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) P(num, den int) bool     { return r.N(den) < num }
func (r *Rand) Pick(s ...string) string { return s[r.N(len(s))] }
func (r *Rand) PickI(s ...int) int      { return s[r.N(len(s))] }
func (r *Rand) Range(lo, hi int) int    { return lo + r.N(hi-lo+1) }
func (r *Rand) Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, r.N(i+1))
	}
}

// Violation is a way in which the property was seen to fail.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func vio(class, format string, args ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, args...)}
}

// Property is the machinery that decides one property.
type Property struct {
	ID       string
	New      func() interface{}
	Gen      func(r *Rand, i int) interface{}
	Check    func(x *X, c interface{}) *Violation
	Variants func(x *X, c interface{}, r *Rand) []interface{}
	Quick    int
	Thorough int
	Level    string
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
}

var properties = map[string]*Property{}

// X is one campaign.
type X struct {
	Sim  *Sim
	Prop *Property

	mu       sync.Mutex
	started  int
	evals    int
	sites    map[uint32]bool
	cases    int
	fired    map[string]int
	probes   map[string]int
	distinct map[uint64]bool
	scheds   map[uint64]bool
	simNS    int64
	decs     uint64
	yields   uint64
	steps    uint64
	samples  []interface{}
	exits    map[string]int

	memos map[string][]byte
	trace bool // record the system calls of every run
	onRun func(sc *proto.Scenario, r *proto.Result)
}

func newX(s *Sim, p *Property) *X {
	return &X{Sim: s, Prop: p, fired: map[string]int{}, probes: map[string]int{}, sites: map[uint32]bool{}, distinct: map[uint64]bool{}, scheds: map[uint64]bool{}, exits: map[string]int{}}
}

// Run runs one scenario and accounts for it.
func (x *X) Run(sc *proto.Scenario) *proto.Result {
	if x.trace {
		sc.Trace = true
	}
	x.mu.Lock()
	x.started++
	sc.Cover = coverAll != "" || x.started%31 == 0
	x.mu.Unlock()
	r := x.Sim.Run(sc)
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, s := range r.Sites {
		if x.sites == nil { // a run within a run
			break
		}
		x.sites[s] = true
	}
	r.Sites = nil
	if x.onRun != nil {
		x.onRun(sc, r)
	}
	x.evals++
	for k, v := range r.Fired {
		x.fired[k] += v
	}
	x.distinct[r.OpHash^(r.SchedHash*31)] = true
	x.scheds[r.SchedHash] = true
	x.simNS += r.SimNS
	x.decs += r.Decisions
	x.yields += r.Yields
	x.steps += r.Steps
	switch {
	case r.Panic != "":
		x.exits["crash"]++
	case r.Hang != "":
		x.exits["hang"]++
	case r.Crashed:
		x.exits["crash-fault"]++
	case r.Exit == 0:
		x.exits["ok"]++
	default:
		x.exits["error"]++
	}
	return r
}

var coverAll = os.Getenv("VERIF_COVER") // a file for the places that were not reached

// reached tells how much of the files that the runs entered was reached
// (measured on every 31st run).
func (x *X) reached() map[string]string {
	var missed []string
	n, all := map[string]int{}, map[string]int{}
	for s, at := range overlay.Sites {
		f := path.Dir(at[:strings.Index(at, ":")])
		all[f]++
		if x.sites[s] {
			n[f]++
		} else {
			missed = append(missed, at)
		}
	}
	out := map[string]string{}
	for f, k := range n {
		out[f] = fmt.Sprintf("%d of %d", k, all[f])
	}
	if coverAll != "" {
		_ = os.WriteFile(coverAll, []byte(strings.Join(dedup(missed), "\n")+"\n"), 0o644)
	}
	return out
}

// memo remembers results that several cases of a campaign need.
func (x *X) memo(key string, f func() []byte) []byte {
	x.mu.Lock()
	b, ok := x.memos[key]
	x.mu.Unlock()
	if ok {
		return b
	}
	b = f()
	x.mu.Lock()
	if x.memos == nil || len(x.memos) > 300 {
		x.memos = map[string][]byte{}
	}
	x.memos[key] = b
	x.mu.Unlock()
	return b
}

// Probe counts that a rare condition was reached.
func (x *X) Probe(name string) {
	x.mu.Lock()
	x.probes[name]++
	x.mu.Unlock()
}

// sane reports crashes and hangs, which no property allows.
func sane(r *proto.Result) *Violation {
	if r.Panic != "" {
		return vio("crash", "the program crashed: %s", trunc(r.Panic, 1500))
	}
	if r.Hang != "" {
		return vio("hang", "the program does not end: %s", trunc(r.Hang, 1500))
	}
	return nil
}

// silent: the program failed without a message.  Being ended by a signal
// because the reader of its output is gone needs none.
func silent(r *proto.Result) bool {
	for k := range r.Fired {
		if strings.HasSuffix(k, "@stderr") {
			return false
		}
	}
	return len(strings.TrimSpace(string(r.Stderr))) == 0 && r.Exit != 128+13
}

type found struct {
	c interface{}
	v *Violation
	i int
}

func campaign(p *Property, tier string, seed int64, sim *Sim) int {
	t0 := time.Now()
	x := newX(sim, p)
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick * 10
		}
	}
	if e := os.Getenv("VERIF_RUNS"); e != "" {
		if n, _ = strconv.Atoi(strings.TrimPrefix(e, "/")); e[0] == '/' && n > 0 {
			n = p.Quick / n
		}
	}
	known := loadKnown(p.ID)
	limit := 360 * time.Second // a slow machine explores less rather than taking longer
	if tier == "thorough" {
		limit = 760 * time.Second
	}
	if e := os.Getenv("VERIF_MAX_S"); e != "" {
		s, _ := strconv.Atoi(e)
		limit = time.Duration(s) * time.Second
	}

	var mu sync.Mutex
	var finds []found
	knownHit := map[string]bool{}
	stop := false
	next := 0
	var infraErr error
	var wg sync.WaitGroup
	for w := 0; w < workers()+2; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					defer mu.Unlock()
					stop = true
					if ie, ok := e.(*InfraError); ok {
						infraErr = ie
					} else {
						buf := make([]byte, 8192)
						buf = buf[:runtime.Stack(buf, false)]
						infraErr = fmt.Errorf("driver: %v\n%s", e, buf)
					}
				}
			}()
			for {
				mu.Lock()
				if stop || next >= n || time.Since(t0) > limit {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				r := NewRand(p.ID, ":", seed, ":", i)
				c := p.Gen(r, i)
				todo := []interface{}{c}
				for k := 0; k < len(todo); k++ {
					mu.Lock()
					s := stop
					mu.Unlock()
					if s {
						return
					}
					v, skip := tryCheck(x, p, todo[k])
					if skip {
						x.Probe("ill-formed case skipped")
						if k == 0 {
							break
						}
						continue
					}
					x.mu.Lock()
					x.cases++
					if len(x.samples) < 3 && (k > 0 || p.Variants == nil || len(x.samples) == 0) && (i%7 == 3 || n < 10) {
						x.samples = append(x.samples, sample(todo[k]))
					}
					x.mu.Unlock()
					if v != nil {
						mu.Lock()
						if kf := matchKnown(known, todo[k], v); kf != "" {
							knownHit[kf] = true
						} else {
							finds = append(finds, found{todo[k], v, i})
							stop = true
						}
						mu.Unlock()
						break
					}
					if k == 0 && p.Variants != nil {
						todo = append(todo, p.Variants(x, c, r)...)
					}
				}
			}
		}()
	}
	wg.Wait()
	if infraErr != nil && len(finds) == 0 {
		fmt.Fprintf(os.Stderr, "%s: ERROR: %v\n", p.ID, infraErr)
		return 2
	}
	wall := time.Since(t0)
	sort.Slice(finds, func(a, b int) bool { return finds[a].i < finds[b].i })
	code := 0
	nviol := 0
	seen := map[string]bool{}
	shrinkEnd := time.Now().Add(90 * time.Second)
	for _, f := range finds {
		if seen[f.v.Class] {
			continue
		}
		seen[f.v.Class] = true
		nviol++
		c, v := f.c, f.v
		if os.Getenv("VERIF_NOSHRINK") == "" {
			c, v = shrink(x, p, c, v, shrinkEnd)
		}
		path := writeReplay(p, seed, tier, f.i, c, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  class: %s\n  detail: %s\n  seed: %d case: %d\n", v.Class, strings.ReplaceAll(trunc(v.Detail, 3000), "\n", "\n    "), seed, f.i)
		code = 1
	}
	for _, k := range known {
		if knownHit[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	writeEvidence(x, p, tier, seed, wall, nviol)
	fmt.Printf("%s %s seed=%d: %d workloads, %d cases, %d simulated runs in %.1f s (%.0f runs/h), %d distinct executions, %d violations\n",
		p.ID, tier, seed, next, x.cases, x.evals, wall.Seconds(), float64(x.evals)/wall.Hours(), len(x.distinct), nviol)
	return code
}

func sample(c interface{}) interface{} {
	b, _ := json.Marshal(c)
	if len(b) > 1200 {
		return string(b[:1200]) + "..."
	}
	var v interface{}
	_ = json.Unmarshal(b, &v)
	return v
}

type replayFile struct {
	Property  string          `json:"property"`
	Seed      int64           `json:"seed"`
	Tier      string          `json:"tier"`
	Case      json.RawMessage `json:"case"`
	Violation *Violation      `json:"violation"`
	How       string          `json:"how"`
}

func writeReplay(p *Property, seed int64, tier string, i int, c interface{}, v *Violation) string {
	b, _ := json.Marshal(c)
	h := sha256.Sum256(b)
	dir := filepath.Join(verifDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	fn := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", p.ID, v.Class, hex.EncodeToString(h[:4])))
	out, _ := json.MarshalIndent(replayFile{p.ID, seed, tier, b, v, "/verif/run.sh replay " + fn}, "", " ")
	if err := os.WriteFile(fn, append(out, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return fn
}

func replay(fn string, sim *Sim) int {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := properties[rf.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", rf.Property)
		return 2
	}
	c := p.New()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	x := newX(sim, p)
	if os.Getenv("VERIF_TRACE") != "" {
		x.showTrace()
	}
	v := p.Check(x, c)
	if v == nil {
		fmt.Printf("%s: %s: not reproduced\n", p.ID, fn)
		return 0
	}
	same := rf.Violation != nil && rf.Violation.Class == v.Class && rf.Violation.Detail == v.Detail
	fmt.Printf("VIOLATION property=%s replay=%s\n  class: %s\n  detail: %s\n  identical to the recorded violation: %v\n", p.ID, fn, v.Class, v.Detail, same)
	return 1
}

type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // substring of the violation's detail
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Open []knownFinding `json:"open"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	var out []knownFinding
	for _, k := range f.Open {
		if k.Property == id {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(known []knownFinding, c interface{}, v *Violation) string {
	for _, k := range known {
		if k.Class == v.Class && k.Match != "" && strings.Contains(v.Detail, k.Match) {
			return k.What
		}
	}
	return ""
}

func writeEvidence(x *X, p *Property, tier string, seed int64, wall time.Duration, nviol int) {
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	kinds := map[string]int{}
	for k, v := range x.fired {
		kinds[k] += v
	}
	cov := map[string]interface{}{
		"evaluations":            x.evals,
		"distinct_nontrivial":    len(x.distinct),
		"rule":                   p.Rule + " Distinct: executions that differ in the hash of the complete sequence of system calls with their results (including injected faults) combined with the hash of all scheduling decisions.",
		"samples":                x.samples,
		"cases":                  x.cases,
		"runs_per_hour":          int(float64(x.evals) / wall.Hours()),
		"simulated_seconds":      float64(x.simNS) / 1e9,
		"faults_fired":           kinds,
		"probes":                 x.probes,
		"outcomes":               x.exits,
		"distinct_schedules":     len(x.scheds),
		"scheduling_decisions":   x.decs,
		"preemptions_injected":   x.yields,
		"statements_executed":    x.steps,
		"statements_reached":     x.reached(),
		"determinism_reruns":     x.Sim.reruns,
		"determinism_mismatches": 0,
		"components_real":        p.Real,
		"components_stub":        p.Stub,
	}
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": p.Assume,
		"wall_s":      wall.Seconds(),
		"violations":  nviol,
	}
	dir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

// ---- minimisation ----

// shrink makes the case smaller while the same class of violation persists.
func shrink(x *X, p *Property, c interface{}, v *Violation, deadline time.Time) (out interface{}, vv *Violation) {
	out, vv = c, v
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(*InfraError); !ok {
				panic(e)
			}
		}
	}()
	b, _ := json.Marshal(c)
	var cur interface{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	_ = dec.Decode(&cur)
	budget := 3000
	try := func(t interface{}) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		budget--
		b, _ := json.Marshal(t)
		nc := p.New()
		if json.Unmarshal(b, nc) != nil {
			return false
		}
		nv := safeCheck(x, p, nc)
		if nv == nil || nv.Class != vv.Class {
			return false
		}
		out, vv = nc, nv
		return true
	}
	for pass := 0; pass < 6; pass++ {
		before, _ := json.Marshal(cur)
		cur = shrinkTree(cur, func(t interface{}) bool { return try(t) })
		after, _ := json.Marshal(cur)
		if string(before) == string(after) || budget <= 0 || time.Now().After(deadline) {
			break
		}
	}
	return out, vv
}

func safeCheck(x *X, p *Property, c interface{}) (v *Violation) {
	defer func() {
		if e := recover(); e != nil {
			v = nil // an ill-formed smaller case
		}
	}()
	return p.Check(x, c)
}

// tryCheck is p.Check, but tells an ill-formed case.
func tryCheck(x *X, p *Property, c interface{}) (v *Violation, skip bool) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); !ok || !strings.HasPrefix(s, "ill-formed") {
				panic(e)
			}
			skip = true
		}
	}()
	return p.Check(x, c), false
}

// shrinkTree returns a smaller tree for which ok holds for the whole.
func shrinkTree(root interface{}, ok func(interface{}) bool) interface{} {
	type ref struct {
		get func() interface{}
		set func(interface{})
	}
	holder := []interface{}{root}
	var walk func(r ref, depth int)
	walk = func(r ref, depth int) {
		switch v := r.get().(type) {
		case []interface{}:
			// drop ranges, then single elements
			for size := len(v); size >= 1; size /= 2 {
				for i := 0; i+size <= len(v); {
					nv := append(append([]interface{}{}, v[:i]...), v[i+size:]...)
					r.set(nv)
					if ok(holder[0]) {
						v = nv
					} else {
						r.set(v)
						i += size
					}
				}
			}
			for i := range v {
				i := i
				walk(ref{func() interface{} { return v[i] }, func(n interface{}) { v[i] = n }}, depth+1)
			}
		case map[string]interface{}:
			keys := make([]string, 0, len(v))
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				old := v[k]
				delete(v, k)
				if ok(holder[0]) {
					continue
				}
				v[k] = old
				k := k
				walk(ref{func() interface{} { return v[k] }, func(n interface{}) { v[k] = n }}, depth+1)
			}
		case json.Number:
			n, err := v.Int64()
			if err != nil || n == 0 {
				return
			}
			for _, c := range []int64{0, 1, n / 2, n - 1} {
				if c == n || (c > n && n > 0) || c < 0 {
					continue
				}
				r.set(json.Number(strconv.FormatInt(c, 10)))
				if ok(holder[0]) {
					return
				}
			}
			r.set(v)
		case bool:
			if v {
				r.set(false)
				if !ok(holder[0]) {
					r.set(true)
				}
			}
		}
	}
	walk(ref{func() interface{} { return holder[0] }, func(n interface{}) { holder[0] = n }}, 0)
	return holder[0]
}
