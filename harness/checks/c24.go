package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/instr"
	"verif/harness/mc"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C24", Level: "model_checking",
		Bounds: "two or three evaluations that share a parsed query or pattern expression, or a graph that they only read, or that parse: all schedules with up to one preemption (two for a part of the jobs) between any two statements of the package, with the race detector watching every schedule",
		Assume: []string{"statements are executed in order and by one thread at a time (other memory orders are left to the race detector); calls of the graph library and of the parser runtime are not preempted; functions of the embedding program and values given as parameters are not shared"},
		Fn:     runC24,
	})
}

type concWorker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	log string
}

type concAnswer struct {
	Fail, Plan                                 string
	Schedules, Steps, Diverged, Blocked, Loose int64
	Outcomes                                   []string
	Incomplete, Exit                           bool
}

func concFatal(what string, err error, out []byte) {
	fmt.Printf("%s: %v\n%s\n", what, err, out)
	os.Exit(3)
}

// concBuild builds the explorer with scheduling points in the package
func concBuild(dir string) (plain, race string, points int) {
	src, err := exec.Command("go", "list", "-f", "{{.ImportPath}}\n{{.Dir}}\n{{range .GoFiles}}{{.}}\n{{end}}", "github.com/cloudprivacylabs/opencypher").Output()
	if err != nil {
		concFatal("go list", err, src)
	}
	l := strings.Fields(string(src))
	overlay, points, err := instr.Overlay(l[0], l[1], l[2:], dir)
	if err != nil {
		concFatal("cannot instrument", err, nil)
	}
	plain, race = filepath.Join(dir, "conc"), filepath.Join(dir, "concrace")
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			args := []string{"build", "-tags", "conc", "-overlay", overlay, "-o", plain, "./cmd/conc"}
			env := "CGO_ENABLED=0"
			if i == 1 {
				args = []string{"build", "-race", "-tags", "conc", "-overlay", overlay, "-o", race, "./cmd/conc"}
				env = "CGO_ENABLED=1"
			}
			cmd := exec.Command("go", args...)
			cmd.Env = append(os.Environ(), env)
			if out, err := cmd.CombinedOutput(); err != nil {
				concFatal("go build", err, out)
			}
		}(i)
	}
	wg.Wait()
	return plain, race, points
}

func concStart(bin, tier string, id int) *concWorker {
	c := &concWorker{log: fmt.Sprintf("%s.log%d", bin, id)}
	c.cmd = exec.Command(bin, tier)
	c.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2")
	f, _ := os.Create(c.log)
	c.cmd.Stderr = f
	c.in, _ = c.cmd.StdinPipe()
	o, _ := c.cmd.StdoutPipe()
	c.out = bufio.NewReaderSize(o, 1<<20)
	if err := c.cmd.Start(); err != nil {
		concFatal("cannot start", err, nil)
	}
	f.Close()
	return c
}

// report gives the end of the log: reports of races or the crash
func (c *concWorker) report() string {
	b, _ := os.ReadFile(c.log)
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	for _, k := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func runC24(r *mc.Run) {
	dir, err := os.MkdirTemp(os.Getenv("MC_TMP"), "conc")
	if err != nil {
		concFatal("no directory", err, nil)
	}
	defer os.RemoveAll(dir)
	plain, race, points := concBuild(dir)
	r.Note("scheduling_points_in_the_code", int64(points))
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	jobs := ConcJobs(r.Thorough)
	r.Note("jobs", int64(len(jobs)))
	procs := map[string]*concWorker{}
	var mu sync.Mutex
	stop := func(key string) {
		mu.Lock()
		defer mu.Unlock()
		if c := procs[key]; c != nil {
			c.in.Close()
			c.cmd.Wait()
			delete(procs, key)
		}
	}
	defer func() {
		for key := range procs {
			stop(key)
		}
	}()
	// explore runs a job
	explore := func(w *mc.W, bin string, i, bound int) string {
		began := time.Now()
		key := fmt.Sprint(bin, w.ID)
		mu.Lock()
		c := procs[key]
		if c == nil {
			c = concStart(bin, tier, w.ID)
			procs[key] = c
		}
		mu.Unlock()
		fmt.Fprintf(c.in, "%d %d %d\n", i, int(r.Remaining().Seconds())+1, bound)
		var a concAnswer
		for {
			line, err := c.out.ReadBytes('\n')
			if err != nil {
				stop(key)
				return "crashes: " + c.report()
			}
			w.Tick()
			if line[0] == '{' {
				if err := json.Unmarshal(line, &a); err != nil {
					return err.Error()
				}
				break
			}
		}
		if d := time.Since(began); d > 3*time.Second && os.Getenv("MC_TIMES") != "" {
			fmt.Printf("%v %d schedules %d steps: %s\n", d, a.Schedules, a.Steps, jobs[i].Name[:60])
		}
		r.Trace(a.Schedules)
		r.Trans(a.Steps)
		if bin == race {
			r.Note("schedules_with_race_detection", a.Schedules)
		} else {
			r.Note(fmt.Sprintf("schedules_of_jobs_with_up_to_%d_preemptions", bound), a.Schedules)
		}
		if a.Diverged > 0 {
			r.Note("schedules_that_did_not_follow_their_plan", a.Diverged)
		}
		if a.Blocked > 0 {
			r.Note("waits_for_a_lock", a.Blocked)
		}
		if a.Loose > 0 {
			r.Note("schedules_without_control_after_a_wait", a.Loose)
		}
		if a.Incomplete {
			r.Note("jobs_not_completed", 1)
		}
		for _, o := range a.Outcomes {
			r.State(jobs[i].Name + o)
		}
		if a.Exit {
			stop(key)
		}
		if a.Fail == "" {
			return ""
		}
		s := a.Fail + "\n  schedule: " + a.Plan
		if strings.Contains(a.Fail, "data race") {
			s += "\n" + c.report()
		}
		return s
	}
	// All jobs without preemption and with the race detector, then with
	// preemptions
	r.Par(len(jobs), func(w *mc.W, i int) {
		w.Case("race detection: "+jobs[i].Name, func() string {
			bound := 0
			if jobs[i].RaceBound > 0 {
				bound = 1
			}
			return explore(w, race, i, bound)
		})
	})
	for bound := 1; bound <= 2; bound++ {
		var part []int
		for i, j := range jobs {
			if j.Bound == bound {
				part = append(part, i)
			}
		}
		// Parsing takes the most time
		sort.SliceStable(part, func(a, b int) bool {
			return jobs[part[a]].Kind == "parse" && jobs[part[b]].Kind != "parse"
		})
		r.Note(fmt.Sprintf("jobs_with_up_to_%d_preemptions", bound), int64(len(part)))
		r.Par(len(part), func(w *mc.W, k int) {
			i := part[k]
			w.Case(jobs[i].Name, func() string { return explore(w, plain, i, bound) })
		})
	}
}
