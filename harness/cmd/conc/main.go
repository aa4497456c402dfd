//go:build conc

// Command conc explores the schedules of concurrent evaluations. It is
// built with an overlay that adds scheduling points to the package under
// test. It reads the numbers of jobs and writes the results.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/checks"
	"verif/harness/ref"
	"verif/harness/sut"
)

type answer struct {
	Fail       string
	Plan       string
	Schedules  int64
	Steps      int64
	Diverged   int64
	Blocked    int64
	Loose      int64
	Outcomes   []string
	Incomplete bool
	Exit       bool
}

var busy time.Time

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	jobs := checks.ConcJobs(os.Args[1] == "thorough")
	oc.VerifYield = yield
	lines := make(chan string)
	go func() {
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			lines <- in.Text()
		}
		os.Exit(0)
	}()
	out := bufio.NewWriter(os.Stdout)
	for l := range lines {
		f := strings.Fields(l)
		i, _ := strconv.Atoi(f[0])
		sec, _ := strconv.Atoi(f[1])
		bound, _ := strconv.Atoi(f[2])
		x := &explorer{bound: bound, job: jobs[i], until: time.Now().Add(time.Duration(sec) * time.Second), outcomes: map[string]bool{}, tick: func() {
			out.WriteString(".\n")
			out.Flush()
		}}
		stallAfter = 500 * time.Millisecond
		if x.job.Kind == "parse" {
			// The parser runtime has no scheduling points
			stallAfter = 3 * time.Second
		}
		x.run()
		for k := range x.outcomes {
			x.ans.Outcomes = append(x.ans.Outcomes, k)
		}
		sort.Strings(x.ans.Outcomes)
		b, _ := json.Marshal(x.ans)
		out.Write(b)
		out.WriteString("\n")
		out.Flush()
		if x.ans.Exit {
			os.Exit(0)
		}
	}
}

type explorer struct {
	job      checks.ConcJob
	bound    int
	ans      answer
	until    time.Time
	last     time.Time
	tick     func()
	protos   map[string]interface{}
	solo     []map[string]bool
	outcomes map[string]bool
	noClone  bool
	memo     map[memoKey]reflect.Value
}

// The variables of the package, and their values at the start
var (
	globals = oc.VerifGlobals()
	initial = func() []reflect.Value {
		var out []reflect.Value
		for _, g := range globals {
			v := reflect.New(reflect.TypeOf(g).Elem()).Elem()
			v.Set(reflect.ValueOf(g).Elem())
			out = append(out, v)
		}
		return out
	}()
)

func original() {
	for i, g := range globals {
		reflect.ValueOf(g).Elem().Set(initial[i])
	}
}

// renew gives the variables of the package copies of their initial
// values
func (x *explorer) renew() {
	x.memo = map[memoKey]reflect.Value{}
	for i, g := range globals {
		dst := reflect.ValueOf(g).Elem()
		fresh := reflect.New(dst.Type()).Elem()
		cloneTo(fresh, initial[i], x.memo)
		dst.Set(fresh)
	}
}

func (x *explorer) parse(text string) (interface{}, error) {
	if x.job.Kind == "pattern" {
		return checks.SafePattern(text)
	}
	p, err := sut.SafeParse(text)
	if err != nil {
		return nil, err
	}
	return p, nil
}

// proto gives an unevaluated copy of the parsed text, which refers to
// the current variables of the package
func (x *explorer) proto(text string) (interface{}, error) {
	if x.noClone {
		return x.parse(text)
	}
	src := reflect.ValueOf(x.protos[text])
	dst := reflect.New(src.Type()).Elem()
	from := reflect.New(src.Type()).Elem()
	from.Set(src)
	cloneTo(dst, from, x.memo)
	return dst.Interface(), nil
}

type thread struct {
	spec   checks.ConcThread
	world  *sut.World
	ctx    *oc.EvalContext
	parsed interface{}
	node   *lpg.Node
	// Results
	val   oc.Value
	nodes []*lpg.Node
	err   error
	pan   string
}

// body is what the thread does under the control of the scheduler
func (t *thread) body(kind string) {
	defer func() {
		if r := recover(); r != nil {
			t.pan = fmt.Sprint(r)
		}
	}()
	switch kind {
	case "parse":
		q, err := oc.Parse(t.spec.Text)
		if err != nil {
			t.err = err
			return
		}
		t.val, t.err = q.Evaluate(t.ctx)
	case "query":
		t.val, t.err = t.parsed.(oc.Evaluatable).Evaluate(t.ctx)
	case "pattern":
		t.nodes, t.err = t.parsed.(oc.PatternPart).FindRelative(t.node)
	}
}

// outcome describes the results and the graph
func (t *thread) outcome(kind string, graph bool) string {
	if t.pan != "" {
		return "panics: " + t.pan
	}
	if t.err != nil {
		return "an error"
	}
	if kind == "pattern" {
		var s []string
		for _, n := range t.nodes {
			s = append(s, ref.Key(t.world.Model(n)))
		}
		sort.Strings(s)
		return "nodes " + strings.Join(s, " ")
	}
	if t.val == nil {
		return "nil value"
	}
	rs, ok := t.val.Get().(oc.ResultSet)
	if !ok {
		return fmt.Sprintf("%T", t.val.Get())
	}
	rows := t.world.RowsOf(rs)
	snap, err := t.world.Snapshot()
	if err != nil {
		return "leaves an inconsistent graph: " + err.Error()
	}
	fn, fe := t.spec.Graph().Next()
	return strings.Join(rs.Cols, ",") + " " + ref.Canon(snap, rows, false, fn, fe)
}

func (x *explorer) world(spec checks.ConcThread) *sut.World {
	o := sut.BuildOpts{}
	if x.job.Index {
		o.Before = checks.ConcIndex
	}
	return sut.Build(spec.Graph(), o)
}

// threads prepares the threads for one execution
func (x *explorer) threads(only int) ([]*thread, error) {
	var out []*thread
	for _, spec := range x.job.Threads {
		if x.protos[spec.Text] == nil && x.job.Kind != "parse" {
			original()
			p, err := x.parse(spec.Text)
			if err != nil {
				return nil, err
			}
			if x.protos == nil {
				x.protos = map[string]interface{}{}
			}
			x.protos[spec.Text] = p
		}
	}
	x.renew()
	shared := map[string]interface{}{}
	var w *sut.World
	for i, spec := range x.job.Threads {
		if only >= 0 && only != i {
			continue
		}
		t := &thread{spec: spec}
		if w == nil || !x.job.OneGraph {
			w = x.world(spec)
		}
		t.world = w
		t.ctx = t.world.Ctx(spec.Vars(), spec.Params())
		if x.job.Kind == "pattern" {
			t.node = t.world.Node(spec.This)
		}
		if x.job.Kind != "parse" {
			p, ok := shared[spec.Text]
			if !ok {
				var err error
				if p, err = x.proto(spec.Text); err != nil {
					return nil, err
				}
				shared[spec.Text] = p
			}
			t.parsed = p
		}
		out = append(out, t)
	}
	return out, nil
}

func (x *explorer) alone(i int) (string, error) {
	ts, err := x.threads(i)
	if err != nil {
		return "", err
	}
	ts[0].body(x.job.Kind)
	return ts[0].outcome(x.job.Kind, true), nil
}

// isAlone tells if the outcome is one of an evaluation alone
func (x *explorer) isAlone(i int, o string) bool {
	if x.solo[i][o] {
		return true
	}
	// Is it the order of rows or elements?
	for k := 0; k < 30; k++ {
		s, err := x.alone(i)
		if err == nil {
			x.solo[i][s] = true
		}
		if s == o {
			return true
		}
	}
	return false
}

func (x *explorer) run() {
	for i, t := range x.job.Threads {
		m := map[string]bool{}
		for k := 0; k < 3; k++ {
			x.noClone = k == 0 && x.job.Kind != "parse"
			s, err := x.alone(i)
			x.noClone = false
			if err != nil {
				if x.job.Kind == "parse" {
					s = "an error"
				} else if k == 0 {
					// Not supported: nothing to do
					return
				}
			}
			m[s] = true
			if strings.HasPrefix(s, "panics") || strings.HasPrefix(s, "leaves") {
				x.ans.Fail = "evaluated alone, {" + t.Text + "} " + s
				return
			}
		}
		x.solo = append(x.solo, m)
	}
	for s := range x.job.Threads {
		x.explore([]decision{{0, s}}, x.bound, 0)
	}
}

func (x *explorer) stop() bool {
	if x.ans.Fail != "" || x.ans.Exit {
		return true
	}
	now := time.Now()
	if now.After(x.until) {
		x.ans.Incomplete = true
		return true
	}
	if now.Sub(x.last) > 2*time.Second {
		x.tick()
		x.last = now
	}
	return false
}

// explore executes the plan, and all plans that extend it
func (x *explorer) explore(plan []decision, bound, from int) {
	if x.stop() {
		return
	}
	trace, ok := x.execute(plan)
	if !ok || x.ans.Fail != "" {
		return
	}
	n := len(x.job.Threads)
	done := make([]bool, n)
	for st := 1; st < len(trace); st++ {
		who := int(trace[st] & 0x7f)
		finish := trace[st]&0x80 != 0
		if finish {
			done[who] = true
		}
		if st <= from || !finish && bound == 0 {
			continue
		}
		first := true
		for t := 0; t < n; t++ {
			if done[t] || t == who {
				continue
			}
			if finish {
				if first {
					// This is the choice without a decision
					first = false
					continue
				}
				x.explore(append(plan[:len(plan):len(plan)], decision{st, t}), bound, st)
				continue
			}
			x.explore(append(plan[:len(plan):len(plan)], decision{st, t}), bound-1, st)
		}
	}
}

// execute runs the threads once
func (x *explorer) execute(plan []decision) ([]byte, bool) {
	ts, err := x.threads(-1)
	if err != nil {
		x.ans.Fail = "does not parse: " + err.Error()
		return nil, false
	}
	races := raceErrors()
	trace, info := schedule(len(ts), plan, func(i int) { ts[i].body(x.job.Kind) })
	x.ans.Schedules++
	x.ans.Steps += int64(len(trace))
	x.ans.Diverged += info.diverged
	x.ans.Blocked += info.waits
	if info.loose {
		x.ans.Loose++
	}
	if info.deadlock {
		x.ans.Fail = "the threads block each other"
		x.ans.Plan = planText(plan)
		x.ans.Exit = true
		return nil, false
	}
	fail := func(what string) {
		if x.ans.Fail == "" {
			x.ans.Fail = what
			x.ans.Plan = planText(plan)
		}
	}
	if raceErrors() != races {
		fail("has a data race")
	}
	all := ""
	for i, t := range ts {
		o := t.outcome(x.job.Kind, true)
		all += o + "|"
		if !x.isAlone(i, o) {
			var want []string
			for k := range x.solo[i] {
				want = append(want, k)
			}
			fail(fmt.Sprintf("thread %d {%s} gives\n    %s\n  evaluated alone it gives\n    %s", i, t.spec.Text, o, strings.Join(want, "\n    or ")))
		}
	}
	x.outcomes[all] = true
	if x.job.Kind == "parse" || x.ans.Fail != "" {
		return trace, true
	}
	// The parsed query is as good as before
	for i, t := range ts {
		if len(ts) > 1 && i != int(x.ans.Schedules)%len(ts) && x.bound > 0 {
			continue
		}
		again := &thread{spec: t.spec, world: x.world(t.spec), parsed: t.parsed}
		again.ctx = again.world.Ctx(t.spec.Vars(), t.spec.Params())
		if x.job.Kind == "pattern" {
			again.node = again.world.Node(t.spec.This)
		}
		again.body(x.job.Kind)
		if o := again.outcome(x.job.Kind, true); !x.isAlone(i, o) {
			fail(fmt.Sprintf("after the threads, {%s} gives\n    %s\n  with the values of thread %d", t.spec.Text, o, i))
		}
	}
	return trace, true
}

func planText(plan []decision) string {
	var s []string
	for _, d := range plan {
		if d.step == 0 {
			s = append(s, fmt.Sprintf("start with thread %d", d.target))
		} else {
			s = append(s, fmt.Sprintf("at step %d (%s) switch to thread %d", d.step, where(d.step), d.target))
		}
	}
	return strings.Join(s, ", ")
}

func where(step int) string {
	if step < len(S.at) {
		return fmt.Sprintf("point %d", S.at[step])
	}
	return "?"
}
