// Package mc is the framework of the checks: enumeration of cases on
// many workers, counting of states, transitions and traces, reporting
// of violations, known findings, and evidence.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/sut"
)

// Check is a registered check
type Check struct {
	Prop  string
	Level string
	// Assume documents what the check assumes
	Assume []string
	Bounds string
	Fn     func(r *Run)
}

var Checks = map[string]*Check{}

func Register(c *Check) { Checks[c.Prop] = c }

// Run is one run of a check
type Run struct {
	Prop     string
	Tier     string
	Only     string
	Thorough bool
	deadline time.Time
	start    time.Time
	root     string
	out      *os.File

	states  stateSet
	trans   int64
	traces  int64
	cases   int64
	unspec  int64
	errs    int64
	stopped int32

	mu       sync.Mutex
	samples  []string
	viol     []Violation
	known    map[string]string
	seenKn   map[string]bool
	notes    map[string]int64
	extra    map[string]interface{}
	timedOut int32
	unstable int64

	slots []*slot
	Seed  int64
}

// Violation is a failing case
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Reruns   string `json:"reruns,omitempty"`
}

const maxWorkers = 16

type slot struct {
	ticks  int64
	active int32
	buf    []byte
	since  int64
}

// W is a worker
type W struct {
	R     *Run
	ID    int
	Cache *sut.Cache
	Data  map[string]interface{}
	s     *slot
	local int64
}

const slotSize = 8192

type stateSet struct {
	shard [64]struct {
		sync.Mutex
		m map[[2]uint64]struct{}
	}
	n int64
}

var seed1, seed2 = maphash.MakeSeed(), maphash.MakeSeed()

func (s *stateSet) add(k string) bool {
	var h1, h2 maphash.Hash
	h1.SetSeed(seed1)
	h1.WriteString(k)
	h2.SetSeed(seed2)
	h2.WriteString(k)
	key := [2]uint64{h1.Sum64(), h2.Sum64()}
	sh := &s.shard[key[0]%64]
	sh.Lock()
	defer sh.Unlock()
	if sh.m == nil {
		sh.m = map[[2]uint64]struct{}{}
	}
	if _, ok := sh.m[key]; ok {
		return false
	}
	sh.m[key] = struct{}{}
	atomic.AddInt64(&s.n, 1)
	return true
}

// State counts a state; it returns if the state is new
func (r *Run) State(k string) bool { return r.states.add(k) }

// Set is a set of strings for many workers
type Set struct{ s stateSet }

func (s *Set) Add(k string) bool { return s.s.add(k) }
func (s *Set) Len() int64        { return atomic.LoadInt64(&s.s.n) }

func (r *Run) Trans(n int64) { atomic.AddInt64(&r.trans, n) }
func (r *Run) Trace(n int64) { atomic.AddInt64(&r.traces, n) }

// Unspec counts inputs whose outcome is not specified
func (r *Run) Unspec() { atomic.AddInt64(&r.unspec, 1) }

// ErrOutcome counts inputs for which an error is specified and observed
func (r *Run) ErrOutcome() { atomic.AddInt64(&r.errs, 1) }

// Note counts something by name, for the evidence
func (r *Run) Note(name string, n int64) {
	r.mu.Lock()
	r.notes[name] += n
	r.mu.Unlock()
}

func (r *Run) Extra(name string, v interface{}) {
	r.mu.Lock()
	r.extra[name] = v
	r.mu.Unlock()
}

// Sample records an example, up to a limit
func (r *Run) Sample(f func() string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, f())
	}
}

func (r *Run) Stopped() bool {
	if atomic.LoadInt32(&r.stopped) != 0 {
		return true
	}
	if r.Only == "" && time.Now().After(r.deadline) {
		atomic.StoreInt32(&r.timedOut, 1)
		return true
	}
	return false
}

// Remaining is the part of the time that is left
func (r *Run) Remaining() time.Duration { return time.Until(r.deadline) }

// Case runs one case. f returns a description of the violation, or "".
// It may be called again to confirm a violation.
func (w *W) Case(key string, f func() string) {
	r := w.R
	if r.Only != "" && key != r.Only {
		return
	}
	w.begin(key)
	what := f()
	w.end()
	atomic.AddInt64(&r.cases, 1)
	if what == "" {
		return
	}
	w.fail(key, what, f)
}

// Fail reports a violation found outside of Case
func (w *W) Fail(key, what string) { w.fail(key, what, nil) }

func (w *W) fail(key, what string, f func() string) {
	r := w.R
	again := 0
	reruns := ""
	if f != nil {
		n := 5
		for i := 0; i < n; i++ {
			w.begin("re-run: " + key)
			if f() != "" {
				again++
			} else if n < 40 {
				n = 40
			}
			w.end()
			if again >= 5 {
				break
			}
		}
		reruns = fmt.Sprintf("%d of %d re-runs fail", again, n)
		if again == 0 {
			// Not reproducible: do not raise an alarm
			atomic.AddInt64(&r.unstable, 1)
			r.mu.Lock()
			r.extra["unstable_case"] = key + ": " + what
			r.mu.Unlock()
			return
		}
	}
	r.report(Violation{Property: r.Prop, Tier: r.Tier, Case: key, What: what, Reruns: reruns})
}

const maxViolations = 5

func (r *Run) report(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if k, ok := r.known[v.Case]; ok {
		if !r.seenKn[v.Case] {
			r.seenKn[v.Case] = true
			fmt.Fprintf(r.out, "KNOWN-FINDING: property=%s %q: %s\n", r.Prop, v.Case, k)
		}
		return
	}
	for _, x := range r.viol {
		if x.Case == v.Case {
			return
		}
	}
	if len(r.viol) >= maxViolations {
		return
	}
	r.viol = append(r.viol, v)
	if len(r.viol) >= maxViolations {
		atomic.StoreInt32(&r.stopped, 1)
	}
	dir := filepath.Join(r.root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop, len(r.viol)))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Fprintf(r.out, "VIOLATION property=%s replay=%s\n", r.Prop, path)
	fmt.Fprintf(r.out, "  case: %s\n  %s\n  (%s)\n", clip(v.Case, 1500), clip(v.What, 2500), v.Reruns)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (w *W) begin(key string) {
	s := w.s
	n := copy(s.buf[4:], key)
	s.buf[0], s.buf[1], s.buf[2], s.buf[3] = byte(n), byte(n>>8), 0, 1
	atomic.StoreInt64(&s.since, time.Now().UnixNano())
	atomic.StoreInt32(&s.active, 1)
}

func (w *W) end() {
	w.s.buf[3] = 0
	atomic.StoreInt32(&w.s.active, 0)
}

// Tick tells the watchdog that a long case makes progress
func (w *W) Tick() { atomic.StoreInt64(&w.s.since, time.Now().UnixNano()) }

// Par runs f for 0..n-1 on all workers
func (r *Run) Par(n int, f func(w *W, i int)) {
	var next int64
	workers := runtime.GOMAXPROCS(0)
	if workers > maxWorkers {
		workers = maxWorkers
	}
	if r.Only != "" {
		workers = 1
	}
	if os.Getenv("MC_TIMES") != "" {
		t, c := time.Now(), atomic.LoadInt64(&r.cases)
		defer func() {
			fmt.Fprintln(r.out, "part", n, "cases", atomic.LoadInt64(&r.cases)-c, "wall", time.Since(t).Round(time.Millisecond))
		}()
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &W{R: r, ID: k, Cache: sut.NewCache(), Data: map[string]interface{}{}, s: r.slots[k]}
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= n || r.Stopped() {
					return
				}
				f(w, i)
			}
		}(k)
	}
	wg.Wait()
}

// Seq runs f on one worker
func (r *Run) Seq(f func(w *W)) {
	r.Par(1, func(w *W, _ int) { f(w) })
}

const hangAfter = 60 * time.Second
const heapLimit = 14 << 30

func (r *Run) watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(250 * time.Millisecond)
		metrics.Read(sample)
		over := sample[0].Value.Uint64() > heapLimit
		for _, s := range r.slots {
			if atomic.LoadInt32(&s.active) == 0 {
				continue
			}
			age := time.Since(time.Unix(0, atomic.LoadInt64(&s.since)))
			if age > hangAfter || over && age > 2*time.Second {
				n := int(s.buf[0]) | int(s.buf[1])<<8
				key := string(s.buf[4 : 4+n])
				what := fmt.Sprintf("does not terminate (running for %v)", age.Round(time.Second))
				if over {
					what = "uses memory without bound"
				}
				r.report(Violation{Property: r.Prop, Tier: r.Tier, Case: key, What: what})
				if len(r.viol) > 0 {
					r.finish()
					os.Exit(1)
				}
				os.Exit(0)
			}
		}
	}
}

func (r *Run) finish() {
	check := Checks[r.Prop]
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]interface{}{}
	if r.samples == nil {
		r.samples = []string{}
	}
	cov["samples"] = r.samples
	cov["states"] = atomic.LoadInt64(&r.states.n)
	cov["transitions"] = atomic.LoadInt64(&r.trans)
	cov["traces_validated_against_impl"] = atomic.LoadInt64(&r.traces)
	cov["cases"] = atomic.LoadInt64(&r.cases)
	cov["outcomes_unspecified"] = atomic.LoadInt64(&r.unspec)
	cov["outcomes_error_as_specified"] = atomic.LoadInt64(&r.errs)
	cov["exhaustive"] = atomic.LoadInt32(&r.timedOut) == 0 && atomic.LoadInt32(&r.stopped) == 0
	cov["bounds"] = check.Bounds
	cov["unstable_cases_ignored"] = r.unstable
	for k, v := range r.notes {
		cov[k] = v
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": check.Level,
		"coverage": cov, "assumptions": check.Assume, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(r.root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644)
}

// loadKnown reads the open entries of the known findings file:
//
//	finding: property=<id> case=<quoted case> <what fails>
func loadKnown(root, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	prefix := "finding: property=" + prop + " case="
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, prefix) {
			continue
		}
		rest := l[len(prefix):]
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		key, err := strconv.Unquote(q)
		if err != nil {
			continue
		}
		m[key] = strings.TrimSpace(rest[len(q):])
	}
	return m
}

// Child runs a check in this process
func Child(root, prop, tier, only, slotFile string, budget time.Duration) int {
	c := Checks[prop]
	if c == nil {
		fmt.Println("no such check", prop)
		return 2
	}
	r := &Run{Prop: prop, Tier: tier, Only: only, Thorough: tier == "thorough", start: time.Now(), root: root, out: os.Stdout,
		known: loadKnown(root, prop), seenKn: map[string]bool{}, notes: map[string]int64{}, extra: map[string]interface{}{}}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.Seed)
	r.deadline = r.start.Add(budget)
	mem := make([]byte, maxWorkers*slotSize)
	if slotFile != "" {
		f, err := os.OpenFile(slotFile, os.O_RDWR, 0)
		if err == nil {
			m, err := syscall.Mmap(int(f.Fd()), 0, maxWorkers*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				mem = m
			}
			f.Close()
		}
	}
	for i := 0; i < maxWorkers; i++ {
		r.slots = append(r.slots, &slot{buf: mem[i*slotSize : (i+1)*slotSize]})
	}
	go r.watchdog()
	c.Fn(r)
	r.finish()
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d cases=%d unspecified=%d exhaustive=%v wall=%.1fs violations=%d\n", prop, tier,
		r.states.n, r.trans, r.traces, r.cases, r.unspec, r.timedOut == 0 && r.stopped == 0, time.Since(r.start).Seconds(), len(r.viol))
	if len(r.notes) > 0 {
		var ks []string
		for k := range r.notes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %s=%d", k, r.notes[k])
		}
		fmt.Println()
	}
	if r.unstable > 0 {
		fmt.Println("  unstable:", r.unstable, r.extra["unstable_case"])
	}
	if len(r.viol) > 0 {
		return 1
	}
	return 0
}

// ActiveCases reads the cases a crashed child was working on
func ActiveCases(slotFile string) []string {
	b, err := os.ReadFile(slotFile)
	if err != nil {
		return nil
	}
	var out []string
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := b[i : i+slotSize]
		if s[3] == 1 {
			n := int(s[0]) | int(s[1])<<8
			if n <= slotSize-4 {
				out = append(out, string(s[4:4+n]))
			}
		}
	}
	return out
}
