package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the monitor and the workload that decide one property.
type Check struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	Run  func(c *C)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *C)) {
	checks[id] = &Check{ID: id, Rule: rule, Run: run}
}

// Violation is one observed execution that contradicts the property.
type Violation struct {
	Key      string   `json:"key"` // identifies the kind of failure, matched against known findings
	Message  string   `json:"message"`
	Workload string   `json:"workload"`
	Case     int      `json:"case"`
	Trace    []string `json:"trace"`
}

// C is the state of one run of a check: what the monitors have observed and decided so far.
type C struct {
	check *Check
	seed  int64
	tier  string

	onlyWorkload string
	onlyCase     int

	mu         sync.Mutex
	cases      int
	events     map[string]int
	decided    map[string]int
	skipped    map[string]int
	required   map[string]int
	distinct   map[uint64]struct{}
	samples    []map[string]interface{}
	violations []*Violation
	known      map[string]int
	knownMsg   map[string]string
	extra      map[string]interface{}
	notes      []string

	stop int32
}

const maxViolations = 5

// Pick returns q in the quick tier and t in the thorough tier.
func (c *C) Pick(q, t int) int {
	if c.tier == "thorough" {
		return t
	}
	return q
}

// Require makes the run inconclusive (neither held nor violated) if the monitor decided fewer than
// min events of a category.
func (c *C) Require(category string, min int) {
	c.mu.Lock()
	c.required[category] = min
	c.mu.Unlock()
}

func (c *C) Extra(name string, v interface{}) {
	c.mu.Lock()
	c.extra[name] = v
	c.mu.Unlock()
}

// K is one case: its random source, its trace of calls and its observations.
type K struct {
	*rand.Rand
	c        *C
	workload string
	index    int
	trace    []string
	events   map[string]int
	decided  map[string]int
	skipped  map[string]int
	sigs     []string
	nFail    int
	sample   map[string]interface{}
	budget   time.Time
}

type abortCase struct{}

// Tracef adds a line to the trace of the case; it is shown in the replay file of a violation.
func (k *K) Tracef(format string, args ...interface{}) {
	if len(k.trace) < 4000 {
		k.trace = append(k.trace, fmt.Sprintf(format, args...))
	}
}

// Event counts an observed call or effect.
func (k *K) Event(name string) { k.events[name]++ }

// Decide counts a judgement of the monitor.
func (k *K) Decide(category string) { k.decided[category]++ }

// Skip counts an observation the monitor did not judge because it lies outside the property.
func (k *K) Skip(category string) { k.skipped[category]++ }

// Distinct records the abstract signature of a non-trivial situation that was judged.
func (k *K) Distinct(format string, args ...interface{}) {
	k.sigs = append(k.sigs, fmt.Sprintf(format, args...))
}

// Sample offers a written-out case for the evidence file.
func (k *K) Sample(m map[string]interface{}) {
	if k.sample == nil {
		k.sample = m
	}
}

// Fail records a violation and abandons the case.
func (k *K) Fail(key, format string, args ...interface{}) {
	k.c.addViolation(&Violation{
		Key:      key,
		Message:  fmt.Sprintf(format, args...),
		Workload: k.workload,
		Case:     k.index,
		Trace:    k.trace,
	})
	panic(abortCase{})
}

// Check fails the case when ok is false and counts the judgement otherwise.
func (k *K) Check(category string, ok bool, format string, args ...interface{}) {
	if !ok {
		k.Fail(category, format, args...)
	}
	k.decided[category]++
}

// Call runs code under test. A panic of that code is reported as a violation.
func (k *K) Call(op string, f func()) {
	k.events[op]++
	if p, stack := k.Try(f); p != nil {
		k.Fail("panic", "%s panicked: %v\n%s", op, p, stack)
	}
}

// Try runs code under test and returns its panic, if any.
func (k *K) Try(f func()) (result interface{}, stack string) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abortCase); ok {
				panic(p)
			}
			result = p
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func (c *C) addViolation(v *Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if f := matchKnown(c.check.ID, v.Key); f != nil {
		c.known[f.Key]++
		if c.known[f.Key] == 1 {
			c.knownMsg[f.Key] = f.What
		}
		return
	}
	if len(c.violations) < maxViolations {
		c.violations = append(c.violations, v)
	}
	if len(c.violations) >= maxViolations {
		atomic.StoreInt32(&c.stop, 1)
	}
}

func caseSeed(seed int64, id, workload string, index int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, id, workload, index)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// Cases runs n cases of a workload on all processors. The cases are determined by the seed, the
// property, the workload name and the case number alone.
func (c *C) Cases(workload string, n int, f func(k *K)) { c.run(workload, n, runtime.NumCPU(), f) }

// CasesSerial runs the cases one after another.
func (c *C) CasesSerial(workload string, n int, f func(k *K)) { c.run(workload, n, 1, f) }

const hangLimit = 150 * time.Second

// heapLimit is far above what any workload needs.
const heapLimit = 8 << 30

func (c *C) run(workload string, n, workers int, f func(k *K)) {
	if c.onlyWorkload != "" && c.onlyWorkload != workload {
		return
	}
	next := int64(-1)
	if c.onlyCase >= 0 {
		next = int64(c.onlyCase) - 1
		n = c.onlyCase + 1
		workers = 1
	}

	type running struct {
		k     *K
		start time.Time
	}
	var mu sync.Mutex
	active := map[int]*running{}
	finished := make(chan struct{})

	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt32(&c.stop) != 0 {
					return
				}
				k := &K{
					Rand:     rand.New(rand.NewSource(caseSeed(c.seed, c.check.ID, workload, i))),
					c:        c,
					workload: workload,
					index:    i,
					events:   map[string]int{},
					decided:  map[string]int{},
					skipped:  map[string]int{},
				}
				mu.Lock()
				active[w] = &running{k, time.Now()}
				mu.Unlock()
				k.exec(f)
				mu.Lock()
				delete(active, w)
				mu.Unlock()
				c.merge(k)
			}
		}(w)
	}
	go func() { wg.Wait(); close(finished) }()

	ticker := time.NewTicker(time.Second)
	defer ticker.Stop()
	for {
		select {
		case <-finished:
			return
		case <-ticker.C:
			var mem runtime.MemStats
			if runtime.ReadMemStats(&mem); mem.HeapInuse > heapLimit {
				// Something grows without end; stop before the system does.
				c.addViolation(&Violation{Key: "memory", Message: fmt.Sprintf(
					"%d bytes of memory in use", mem.HeapInuse), Workload: workload})
				return
			}
			mu.Lock()
			for _, r := range active {
				if time.Since(r.start) > hangLimit {
					// Cases take milliseconds; this one does not terminate.
					c.addViolation(&Violation{Key: "hang", Message: fmt.Sprintf(
						"the case did not finish within %s", hangLimit), Workload: workload,
						Case: r.k.index, Trace: []string{"(trace unavailable: the case is still running)"}})
					mu.Unlock()
					return
				}
			}
			mu.Unlock()
		}
	}
}

func (k *K) exec(f func(k *K)) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abortCase); ok {
				return
			}
			// A panic that was not inside a call under test is an error of the harness, unless the
			// code under test is on the stack or left something that can't be looked at.
			stack := string(debug.Stack())
			_, runtimeError := p.(runtime.Error)
			if m, ok := p.(misaligned); ok || runtimeError {
				what := fmt.Sprint(p)
				if ok {
					what = string(m)
				}
				k.c.addViolation(&Violation{Key: "malformed",
					Message:  fmt.Sprintf("what the library left can't be examined: %s\n%s", what, stack),
					Workload: k.workload, Case: k.index, Trace: k.trace})
				return
			}
			if strings.Contains(stack, "github.com/tokenized/txbuilder") {
				k.c.addViolation(&Violation{Key: "panic",
					Message:  fmt.Sprintf("panic: %v\n%s", p, stack),
					Workload: k.workload, Case: k.index, Trace: k.trace})
				return
			}
			fmt.Fprintf(os.Stderr, "harness error in %s case %d: %v\n%s\n", k.workload, k.index, p, stack)
			os.Exit(3)
		}
	}()
	f(k)
}

func (c *C) merge(k *K) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cases++
	for n, v := range k.events {
		c.events[n] += v
	}
	for n, v := range k.decided {
		c.decided[n] += v
	}
	for n, v := range k.skipped {
		c.skipped[n] += v
	}
	for _, s := range k.sigs {
		h := fnv.New64a()
		h.Write([]byte(k.workload))
		h.Write([]byte(s))
		c.distinct[h.Sum64()] = struct{}{}
	}
	if k.sample != nil && len(c.samples) < 4 {
		k.sample["workload"] = k.workload
		k.sample["case"] = k.index
		c.samples = append(c.samples, k.sample)
	}
}

// ---------------------------------------------------------------------------------------------

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

var knownFindings []*knownFinding

func matchKnown(id, key string) *knownFinding {
	for _, f := range knownFindings {
		if f.Property == id && f.Key == key {
			return f
		}
	}
	return nil
}

func loadKnown(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var file struct {
		Known []*knownFinding `json:"known"`
	}
	if err := json.Unmarshal(b, &file); err != nil {
		return err
	}
	knownFindings = file.Known
	return nil
}

func runCheck(check *Check, verif string, seed int64, tier, onlyWorkload string, onlyCase int) int {
	c := &C{
		check: check, seed: seed, tier: tier, onlyWorkload: onlyWorkload, onlyCase: onlyCase,
		events: map[string]int{}, decided: map[string]int{}, skipped: map[string]int{},
		required: map[string]int{}, distinct: map[uint64]struct{}{}, known: map[string]int{},
		knownMsg: map[string]string{}, extra: map[string]interface{}{},
	}
	start := time.Now()
	check.Run(c)
	wall := time.Since(start).Seconds()

	c.mu.Lock()
	defer c.mu.Unlock()
	total := 0
	for _, v := range c.decided {
		total += v
	}

	coverage := map[string]interface{}{
		"evaluations":         c.cases,
		"distinct_nontrivial": len(c.distinct),
		"rule":                check.Rule,
		"samples":             c.samples,
		"events_observed":     c.events,
		"judgements":          c.decided,
		"not_judged":          c.skipped,
	}
	for n, v := range c.extra {
		coverage[n] = v
	}
	if len(c.known) > 0 {
		coverage["known_findings_seen"] = c.known
	}
	if c.samples == nil {
		coverage["samples"] = []interface{}{}
	}
	evidence := map[string]interface{}{
		"property":   check.ID,
		"tier":       tier,
		"seed":       seed,
		"level":      "exploration",
		"coverage":   coverage,
		"wall_s":     wall,
		"violations": len(c.violations),
		"assumptions": []string{
			"The wire, bitcoin and interpreter packages of the module cache are trusted as the second opinion on encodings and signatures.",
			"Only the generated workloads are judged; nothing is claimed about inputs that were not run.",
		},
	}
	if onlyCase < 0 {
		if err := writeJSON(filepath.Join(verif, "evidence", check.ID+".json"), evidence); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
	}

	for key, n := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", check.ID, c.knownMsg[key], n)
	}

	if len(c.violations) > 0 {
		sort.Slice(c.violations, func(i, j int) bool { return c.violations[i].Case < c.violations[j].Case })
		v := c.violations[0]
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", check.ID, seed))
		os.MkdirAll(filepath.Dir(path), 0o755)
		writeJSON(path, map[string]interface{}{
			"property": check.ID, "seed": seed, "tier": tier, "violations": c.violations,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s VERIF_WORKLOAD=%s VERIF_CASE=%d ./run.sh %s",
				seed, tier, v.Workload, v.Case, check.ID),
		})
		for _, v := range c.violations {
			msg := v.Message
			if len(msg) > 1500 {
				msg = msg[:1500] + " ..."
			}
			fmt.Printf("%s [%s] %s case %d: %s\n", check.ID, v.Key, v.Workload, v.Case, msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, path)
		return 1
	}

	if onlyCase >= 0 {
		fmt.Printf("%s: no violation in the replayed case\n", check.ID)
		return 0
	}
	var missing []string
	for cat, min := range c.required {
		if c.decided[cat] < min {
			missing = append(missing, fmt.Sprintf("%s %d/%d", cat, c.decided[cat], min))
		}
	}
	if total == 0 || len(c.distinct) == 0 || len(missing) > 0 {
		sort.Strings(missing)
		fmt.Printf("INCONCLUSIVE property=%s too little was observed: %s\n", check.ID, strings.Join(missing, ", "))
		return 4
	}
	fmt.Printf("%s: held on %d cases, %d judgements, %d distinct non-trivial situations, %.1fs\n",
		check.ID, c.cases, total, len(c.distinct), wall)
	return 0
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
