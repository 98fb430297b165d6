// Package x is the framework of the checks: exhaustive case enumeration, controlled
// schedule exploration, sharding over processes, violations, known findings, evidence.
package x

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/mc/rt"
)

// Violation is one confirmed disagreement.
type Violation struct {
	Key    string  `json:"key"`  // identifies the failing input, schedule class or history
	What   string  `json:"what"` // what was observed
	Sched  []int32 `json:"schedule,omitempty"`
	Detail string  `json:"detail,omitempty"`
}

// Result is what one shard measured.
type Result struct {
	Evaluations int64             `json:"evaluations"` // complete executions of the implementation
	Transitions int64             `json:"transitions"` // operations / scheduling steps executed
	States      int64             `json:"states"`
	StateSet    []uint64          `json:"state_set,omitempty"`
	Outcomes    map[string]int64  `json:"outcomes"`
	Samples     []string          `json:"samples"`
	Bounds      map[string]string `json:"bounds"`
	Exhaustive  bool              `json:"exhaustive"`
	Notes       []string          `json:"notes,omitempty"`
	Violations  []Violation       `json:"violations"`
	Unconfirmed int               `json:"unconfirmed"`
}

// Ctx is handed to a check.
type Ctx struct {
	ID, Tier      string
	Seed          int
	Shard, Shards int
	Deadline      time.Time
	OnlyKey       string // replay: run only this case
	OnlySched     []int32
	Replaying     bool

	R       Result
	states  map[uint64]struct{}
	nodes   int64 // schedule-tree nodes
	n       int64
	vkeys   map[string]bool
	expired bool

	order     map[string]bool // "mc order": only record the enumeration
	dups      []string
	orderHash hash.Hash64
}

// Check is a registered check.
type Check struct {
	ID      string
	Race    bool // needs the race-detector build
	Single  bool // does not shard
	Run     func(c *Ctx)
	Rule    string
	Assume  []string
	Timeout time.Duration
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Q returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Q(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired reports whether the internal deadline has passed; the run is then not exhaustive.
func (c *Ctx) Expired() bool {
	if c.expired {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.expired = true
		c.R.Exhaustive = false
		c.Note("internal deadline reached")
	}
	return c.expired
}

func (c *Ctx) Note(s string) {
	for _, n := range c.R.Notes {
		if n == s {
			return
		}
	}
	c.R.Notes = append(c.R.Notes, s)
}

func (c *Ctx) Bound(k, v string) { c.R.Bounds[k] = v }

// State records a distinct abstract state.
func (c *Ctx) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states[h.Sum64()] = struct{}{}
}

// Step counts one operation executed on the implementation.
func (c *Ctx) Step() { c.R.Transitions++ }

// Outcome counts an observed outcome class.
func (c *Ctx) Outcome(s string) { c.R.Outcomes[s]++ }

func (c *Ctx) Sample(s string) {
	if len(c.R.Samples) < 4 {
		c.R.Samples = append(c.R.Samples, s)
	}
}

// Fail records a violation (already confirmed by the caller).
func (c *Ctx) Fail(v Violation) {
	if c.vkeys[v.Key] {
		return
	}
	c.vkeys[v.Key] = true
	if len(c.R.Violations) < 40 {
		c.R.Violations = append(c.R.Violations, v)
	}
}

func guarded(f func() string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
			if os.Getenv("MC_STACK") != "" {
				res += "\n" + string(debug.Stack())
			}
		}
	}()
	return f()
}

// Case runs one self-contained case of an enumeration on the implementation. f returns
// "" when the property held. The case is sharded by its ordinal. A failing case is run
// again 5 times and reported only when it fails every time.
func (c *Ctx) Case(key string, f func() string) {
	c.n++
	if c.order != nil {
		if c.order[key] {
			c.dups = append(c.dups, key)
		}
		c.order[key] = true
		c.orderHash.Write([]byte(key))
		return
	}
	if c.Replaying {
		if key != c.OnlyKey {
			return
		}
	} else if int(c.n%int64(c.Shards)) != c.Shard {
		return
	}
	if c.Expired() {
		return
	}
	c.R.Evaluations++
	rt.ResetClock()
	res := guarded(f)
	c.Sample(key)
	if res == "" {
		return
	}
	if c.Replaying {
		fmt.Printf("replay %s: %s\n", key, res)
	}
	n := c.R.Transitions
	for i := 0; i < 5; i++ {
		rt.ResetClock()
		if guarded(f) == "" {
			c.R.Unconfirmed++
			c.Note("a failure did not reproduce: " + key + ": " + res)
			return
		}
	}
	c.R.Transitions = n
	c.Fail(Violation{Key: key, What: res})
}

// Skip reports whether the next Case would be skipped by sharding (to save building it).
func (c *Ctx) Skip() bool {
	if c.Replaying || c.order != nil {
		return false
	}
	return int((c.n+1)%int64(c.Shards)) != c.Shard
}

// SkipN advances the ordinal without running.
func (c *Ctx) SkipN() { c.n++ }

// World is one controlled concurrent execution.
type World struct {
	Threads []func()
	// Check is called after all threads ended; "" means the property held.
	Check func() string
	// Outcome labels the observable outcome.
	Outcome func() string
}

// Explore runs every schedule of the world with at most bound preemptions.
func (c *Ctx) Explore(name string, bound int, build func() *World) {
	if c.order != nil {
		return
	}
	if c.Replaying && c.OnlyKey != name {
		return
	}
	if c.R.Bounds["preemptions:"+name] == "" {
		c.Bound("preemptions:"+name, strconv.Itoa(bound))
	}
	c.explore(&explorer{c: c, name: name, label: name, bound: bound, build: build, split: true})
}

// claim reports whether this shard takes the current case: the shards take the cases in order,
// each the next one which is free (their costs differ by orders of magnitude).
func (c *Ctx) claim() bool {
	dir := os.Getenv("MC_CLAIM")
	if dir == "" || c.Shards < 2 {
		return int(c.n%int64(c.Shards)) == c.Shard
	}
	f, err := os.OpenFile(fmt.Sprintf("%s/%d", dir, c.n), os.O_CREATE|os.O_EXCL, 0o600)
	if err != nil {
		return false
	}
	f.Close()
	return true
}

// Whole is Explore for one of many small worlds: the world, not its schedules, is
// sharded. label groups the outcomes of similar worlds.
func (c *Ctx) Whole(label, key string, bound int, build func() *World) {
	c.n++
	if c.order != nil {
		if c.order[key] {
			c.dups = append(c.dups, key)
		}
		c.order[key] = true
		c.orderHash.Write([]byte(key))
		return
	}
	if c.Replaying {
		if key != c.OnlyKey {
			return
		}
	} else if !c.claim() {
		return
	}
	c.explore(&explorer{c: c, name: key, label: label, bound: bound, build: build})
}

func (c *Ctx) explore(e *explorer) {
	name := e.name
	if c.Replaying {
		x, res := e.exec(c.OnlySched)
		fmt.Printf("replay %s: result=%q panic=%q deadlock=%v diverged=%q\n", name, res, x.Panic, x.Deadlock, x.Diverged)
		if res != "" {
			c.Fail(Violation{Key: name, What: res, Sched: c.OnlySched})
		}
		return
	}
	// self-test: the default schedule, twice, must make identical decisions
	// (the race detector reports each pair of stacks once: what it reports here counts)
	a, ra := e.exec(nil)
	if strings.HasPrefix(ra, raceReport) {
		ch := make([]int32, len(a.Points))
		for i, p := range a.Points {
			ch[i] = p.Choice
		}
		c.Fail(Violation{Key: name, What: ra, Sched: ch})
		return
	}
	b, _ := e.exec(nil)
	if len(a.Points) != len(b.Points) {
		c.Note(fmt.Sprintf("%s: the default schedule is not deterministic (%d vs %d points)", name, len(a.Points), len(b.Points)))
		c.R.Exhaustive = false
	}
	e.explore(nil, 0, true)
	if e.truncated {
		c.R.Exhaustive = false
	}
}

const raceReport = "data race reported by the race detector"

type explorer struct {
	c         *Ctx
	name      string
	label     string
	split     bool // the schedules of this world are sharded
	bound     int
	build     func() *World
	execs     int
	child     int
	truncated bool
	failed    bool
}

func (e *explorer) exec(prefix []int32) (rt.Exec, string) {
	rt.ResetClock()
	w := e.build()
	re := rt.RaceErrors()
	x := rt.Run(prefix, w.Threads)
	switch {
	case x.Hang:
		e.c.Note(e.name + ": a thread blocked on something the scheduler does not model; inconclusive")
		e.truncated = true
		return x, ""
	case x.Diverged != "":
		return x, ""
	case x.Overflow:
		e.c.Note(e.name + ": horizon reached")
		e.truncated = true
		return x, ""
	case x.Panic != "":
		return x, "panic: " + x.Panic
	case x.Deadlock:
		return x, "deadlock: no thread can run"
	}
	res := guarded(w.Check)
	if res == "" && rt.RaceErrors() > re {
		res = raceReport + " in this schedule"
	}
	if w.Outcome != nil && res == "" {
		e.c.Outcome(e.label + ": " + w.Outcome())
	}
	return x, res
}

func (e *explorer) explore(prefix []int32, cost int, root bool) {
	if e.failed || e.truncated {
		return
	}
	if e.c.Expired() {
		e.truncated = true
		return
	}
	x, res := e.exec(prefix)
	if x.Hang {
		return
	}
	if x.Diverged != "" {
		e.c.Note(e.name + ": replay diverged: " + x.Diverged)
		e.truncated = true
		return
	}
	if !root || !e.split || e.c.Shard == 0 {
		e.execs++
		e.c.R.Evaluations++
		e.c.nodes += int64(len(x.Points) - len(prefix))
		e.c.R.Transitions += int64(len(x.Points))
	}
	ch := make([]int32, len(x.Points))
	for i, p := range x.Points {
		ch[i] = p.Choice
	}
	if res != "" {
		race := strings.HasPrefix(res, raceReport)
		for i := 0; i < 5 && !race; i++ {
			if _, r2 := e.exec(ch); r2 == "" {
				e.c.R.Unconfirmed++
				e.c.Note(e.name + ": a failure did not reproduce: " + res)
				return
			}
		}
		e.c.Fail(Violation{Key: e.name, What: res, Sched: ch})
		e.failed = true // the first counterexample has the fewest deviations along this branch
		return
	}
	if len(prefix) > 0 {
		e.c.Sample(fmt.Sprintf("%s schedule prefix %v", e.name, prefix))
	}
	for i := len(prefix); i < len(x.Points); i++ {
		p := x.Points[i]
		k := cost
		if p.Pre {
			k++
		}
		if k > e.bound {
			continue
		}
		for alt := int32(1); alt < p.N; alt++ {
			if root && e.split {
				e.child++
				if e.child%e.c.Shards != e.c.Shard {
					continue
				}
			}
			np := make([]int32, i+1)
			copy(np, ch[:i])
			np[i] = alt
			e.explore(np, k, false)
			if e.failed || e.truncated {
				return
			}
		}
	}
}

// ---------------------------------------------------------------------------

func root() string {
	if r := os.Getenv("MC_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

type known struct{ prop, key, what string }

// knownFindings reads the committed file: lines "property=<id> key=<key> :: <what>".
func knownFindings(id string) []known {
	var out []known
	f, err := os.Open(filepath.Join(root(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		k := known{l[:i], l[i+5 : j], l[j+4:]}
		if k.prop == id {
			out = append(out, k)
		}
	}
	return out
}

func newCtx(id, tier string, seed, shard, shards int, deadline time.Time) *Ctx {
	return &Ctx{ID: id, Tier: tier, Seed: seed, Shard: shard, Shards: shards, Deadline: deadline,
		R:      Result{Outcomes: map[string]int64{}, Bounds: map[string]string{}, Exhaustive: true},
		states: map[uint64]struct{}{}, vkeys: map[string]bool{}}
}

// Main is the entry point of the checker binary.
//
//	mc run ID TIER          run a check (parent: spawns shards, writes evidence)
//	mc shard ID TIER I N    one shard, JSON result on stdout
//	mc replay FILE          re-execute one violation
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run|shard|replay ...")
		os.Exit(2)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	switch os.Args[1] {
	case "order": // self-test: the enumeration order must not depend on the process
		c := newCtx(os.Args[2], os.Args[3], seed, 0, 1, time.Now().Add(time.Hour))
		c.order, c.orderHash = map[string]bool{}, fnv.New64a()
		runGuarded(registry[os.Args[2]], c)
		fmt.Printf("%s %d cases, order %x, %d duplicate keys %q\n", os.Args[2], c.n, c.orderHash.Sum64(), len(c.dups), c.dups[:min(len(c.dups), 3)])
	case "list":
	case "run":
		os.Exit(parent(os.Args[2], os.Args[3], seed))
	case "shard":
		i, _ := strconv.Atoi(os.Args[4])
		n, _ := strconv.Atoi(os.Args[5])
		dl, _ := strconv.ParseInt(os.Getenv("MC_DEADLINE"), 10, 64)
		ck := registry[os.Args[2]]
		debug.SetMemoryLimit(3 << 30)
		c := newCtx(os.Args[2], os.Args[3], seed, i, n, time.Unix(dl, 0))
		runGuarded(ck, c)
		c.R.States = c.nodes
		for h := range c.states {
			c.R.StateSet = append(c.R.StateSet, h)
		}
		w := bufio.NewWriter(os.Stdout)
		w.WriteString("\n@@RESULT@@")
		json.NewEncoder(w).Encode(c.R)
		w.Flush()
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var rp struct {
			Property, Tier string
			Violation      Violation
		}
		json.Unmarshal(b, &rp)
		c := newCtx(rp.Property, rp.Tier, seed, 0, 1, time.Now().Add(time.Hour))
		c.Replaying = true
		c.OnlyKey = rp.Violation.Key
		c.OnlySched = rp.Violation.Sched
		runGuarded(registry[rp.Property], c)
		for _, v := range c.R.Violations {
			fmt.Printf("reproduced: %s: %s\n", v.Key, v.What)
		}
		if len(c.R.Violations) > 0 {
			os.Exit(1)
		}
	}
	os.Exit(0)
}

func runGuarded(ck *Check, c *Ctx) {
	defer func() {
		if r := recover(); r != nil {
			// Setting up the harness on the implementation failed: normal operation is broken.
			c.Fail(Violation{Key: "harness", What: fmt.Sprintf("driving the implementation failed: %v", r), Detail: string(debug.Stack())})
		}
	}()
	ck.Run(c)
}

func parent(id, tier string, seed int) int {
	start := time.Now()
	ck := registry[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second // a check gets 900 s, its build included
	}
	if ck.Timeout > 0 && tier != "thorough" {
		budget = ck.Timeout
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	dl := start.Add(budget)
	claims, err := os.MkdirTemp(filepath.Dir(os.Args[0]), "claim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(claims)
	n := 8
	if ck.Single {
		n = 1
	}
	res := make([]*Result, n)
	errs := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "shard", id, tier, strconv.Itoa(i), strconv.Itoa(n))
			cmd.Env = append(os.Environ(), fmt.Sprintf("MC_DEADLINE=%d", dl.Unix()), "MC_CLAIM="+claims, "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0 history_size=7 log_path="+os.Args[0]+".race")
			var out, er bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &er
			err := cmd.Start()
			if err == nil {
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				select {
				case err = <-done:
				case <-time.After(budget + 90*time.Second):
					cmd.Process.Kill()
					err = fmt.Errorf("shard did not stop at its deadline")
					<-done
				}
			}
			b := out.Bytes()
			k := bytes.LastIndex(b, []byte("@@RESULT@@"))
			if k < 0 {
				tail := er.String()
				if len(tail) > 3000 {
					tail = tail[:3000]
				}
				errs[i] = fmt.Sprintf("shard %d gave no result: %v\n%s", i, err, tail)
				return
			}
			r := &Result{}
			if e := json.Unmarshal(b[k+10:], r); e != nil {
				errs[i] = e.Error()
				return
			}
			res[i] = r
		}(i)
	}
	wg.Wait()
	tot := Result{Outcomes: map[string]int64{}, Bounds: map[string]string{}, Exhaustive: true}
	set := map[uint64]struct{}{}
	seen := map[string]bool{}
	for i, r := range res {
		if r == nil {
			// The implementation crashed the whole process (fatal error: concurrent map
			// access, stack exhaustion, os.Exit ...): that is an observation, not ours.
			what := errs[i]
			if strings.Contains(what, "fatal error:") || strings.Contains(what, "stack overflow") {
				if !seen["process crash"] {
					seen["process crash"] = true
					tot.Violations = append(tot.Violations, Violation{Key: "process crash", What: what})
				}
				continue
			}
			if strings.Contains(what, "did not stop at its deadline") {
				tot.Exhaustive = false
				tot.Notes = append(tot.Notes, what)
				continue
			}
			fmt.Fprintln(os.Stderr, what)
			return 3
		}
		tot.Evaluations += r.Evaluations
		tot.Transitions += r.Transitions
		tot.States += r.States
		tot.Unconfirmed += r.Unconfirmed
		for _, h := range r.StateSet {
			set[h] = struct{}{}
		}
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Bounds {
			tot.Bounds[k] = v
		}
		if !r.Exhaustive {
			tot.Exhaustive = false
		}
		if len(tot.Samples) < 6 && len(r.Samples) > 0 {
			tot.Samples = append(tot.Samples, r.Samples[0])
		}
		for _, nn := range r.Notes {
			if !seen["n"+nn] {
				seen["n"+nn] = true
				tot.Notes = append(tot.Notes, nn)
			}
		}
		for _, v := range r.Violations {
			if !seen["v"+v.Key] {
				seen["v"+v.Key] = true
				tot.Violations = append(tot.Violations, v)
			}
		}
	}
	tot.States += int64(len(set))
	sort.Slice(tot.Violations, func(i, j int) bool { return tot.Violations[i].Key < tot.Violations[j].Key })

	// known findings
	kn := knownFindings(id)
	var fresh []Violation
	hit := map[int]bool{}
	for _, v := range tot.Violations {
		ok := false
		for i, k := range kn {
			if k.key == v.Key {
				hit[i] = true
				ok = true
			}
		}
		if !ok {
			fresh = append(fresh, v)
		}
	}
	for i, k := range kn {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, k.what, k.key)
		}
	}
	ev := filepath.Join(root(), "evidence")
	os.MkdirAll(ev, 0o755)
	for i, v := range fresh {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		p := filepath.Join(ev, fmt.Sprintf("replay-%s-%d.json", id, i))
		b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "violation": v,
			"how": "bash /verif/check.sh " + id + " replay " + p}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		w := v.What
		if len(w) > 1500 {
			w = w[:1500]
		}
		fmt.Printf("  case: %s\n  observed: %s\n", printable(v.Key), printable(w))
	}
	type kv struct {
		k string
		v int64
	}
	var oc []kv
	for k, v := range tot.Outcomes {
		oc = append(oc, kv{k, v})
	}
	sort.Slice(oc, func(i, j int) bool { return oc[i].v > oc[j].v })
	outs := map[string]int64{}
	for i, o := range oc {
		if i < 40 {
			outs[o.k] = o.v
		}
	}
	if len(tot.Samples) == 0 {
		tot.Samples = []string{"(none)"}
	}
	cov := map[string]any{
		"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Evaluations,
		"distinct_outcomes": len(tot.Outcomes), "outcomes": outs, "samples": tot.Samples,
		"exhaustive": tot.Exhaustive, "bounds": tot.Bounds, "rule": ck.Rule, "notes": tot.Notes,
		"unconfirmed_failures": tot.Unconfirmed, "known_findings_seen": len(hit),
	}
	e := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{
			"statement-level interleavings under sequential consistency; library calls and single statements are atomic steps",
			"time is virtual (instrumented at build time); nothing outside the stated alphabet and bounds is covered"}, ck.Assume...),
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh)}
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(ev, id+".json"), b, 0o644)
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n", id, tier, tot.States, tot.Transitions, tot.Evaluations, len(tot.Outcomes), tot.Exhaustive, len(fresh), time.Since(start).Seconds())
	for _, nn := range tot.Notes {
		fmt.Println("  note:", nn)
	}
	if len(fresh) > 0 {
		return 1
	}
	return 0
}

// printable keeps control and invalid bytes out of the log.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' || r >= ' ' && r != 0x7f && r != '\uFFFD' && !(r >= 0x80 && r < 0xa0) {
			return r
		}
		return '?'
	}, strings.ToValidUTF8(s, "?"))
}
