package checks

import (
	"fmt"
	"sort"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// qopts are the options of runQuery
type qopts struct {
	vars, params map[string]ref.V
	// builds are the ways of creating the graph; nil is one
	builds []sut.BuildOpts
	// bare leaves out the graph with properties that are not query values
	bare bool
	// ordered is set if the order of the rows is specified
	ordered bool
	filter  func(string, ref.V) ref.V
	// exact is set if the order in which reading clauses give their rows
	// does not matter
	exact bool
	// after is called with the world after the query
	after func(world *sut.World, rctx *oc.EvalContext) string
}

func hasUpdates(q ref.Query) bool {
	for _, s := range q.Singles {
		if len(s.Upds) > 0 {
			return true
		}
	}
	return false
}

// graphUnchangedOnError tells if a failing query must leave the graph as
// it is: if it deletes nothing, or if it is the DELETE itself that fails
func graphUnchangedOnError(g *ref.Graph, q ref.Query, o ref.Opts) bool {
	n := 0
	noRet := ref.Query{All: q.All}
	for _, s := range q.Singles {
		for _, u := range s.Upds {
			if _, ok := u.(ref.Delete); !ok {
				return false
			}
			n++
		}
		if len(s.Upds) > 0 {
			s.Ret = nil
		}
		noRet.Singles = append(noRet.Singles, s)
	}
	if n > 1 {
		return false
	}
	return n == 0 || ref.Run(g, noRet, o).St == ref.ERR
}

// runQuery compares the outcome of a query with the reference
func runQuery(w *mc.W, g *ref.Graph, q ref.Query, o qopts) {
	text := q.Str()
	key := text + " on " + g.String()
	if len(o.vars) > 0 {
		key += " variables" + envText(o.vars)
	}
	if len(o.params) > 0 {
		key += " parameters" + envText(o.params)
	}
	w.Case(key, func() string {
		p, err := w.Cache.Parse(text)
		if err != nil {
			return "does not parse: " + err.Error()
		}
		return queryCase(w, p, g, q, o)
	})
}

// hasProps tells if it matters how properties are stored
func hasProps(g *ref.Graph, updates bool) bool {
	if updates {
		return true
	}
	for _, n := range g.Nodes {
		if len(n.Props) > 0 {
			return true
		}
	}
	for _, e := range g.Edges {
		if len(e.Props) > 0 {
			return true
		}
	}
	return false
}

func queryCase(w *mc.W, p oc.Evaluatable, g *ref.Graph, q ref.Query, o qopts) string {
	builds := o.builds
	if builds == nil {
		builds = []sut.BuildOpts{{}}
	}
	if !o.bare && hasProps(g, hasUpdates(q)) {
		builds = append(builds[:len(builds):len(builds)], sut.BuildOpts{Wrap: true})
	}
	opts := ref.Opts{Vars: o.vars, Params: o.params, Filter: o.filter}
	exp := ref.Run(g, q, opts)
	fn, fe := g.Next()
	var wantC string
	if exp.St == ref.OK && !hasUpdates(q) {
		wantC = rowsText(exp.Rows, o.ordered)
		w.R.State(g.Text() + wantC)
	} else if exp.St == ref.OK {
		wantC = ref.Canon(exp.G, exp.Rows, o.ordered, fn, fe)
		w.R.State(wantC)
	}
	updates := hasUpdates(q)
	w.R.Trans(1)
	switch exp.St {
	case ref.ERR:
		w.R.ErrOutcome()
	case ref.UNSPEC:
		w.R.Unspec()
	}
	var wantRows string
	if !updates && exp.St == ref.OK {
		wantRows = rowsText(exp.Rows, o.ordered)
	}
	for bi, b := range builds {
		world := sut.Build(g, b)
		ctx := world.Ctx(o.vars, o.params)
		if o.filter != nil || b.Wrap {
			ctx.PropertyValueFromNativeFilter = func(k string, v interface{}) interface{} {
				if o.filter != nil {
					v = world.Native(o.filter(k, world.Model(v)))
				}
				if b.Wrap {
					v = sut.Wrap(v)
				}
				return v
			}
		}
		at := ""
		if b.Wrap {
			at = " (property values are objects with native values)"
		} else if len(builds) > 1 {
			at = fmt.Sprintf(" (creation order %d: nodes %v, relationships %v)", bi, b.NodeOrder, b.EdgeOrder)
		}
		rounds := 1
		if !updates && bi == 0 {
			rounds = 2
		}
		for round := 0; round < rounds; round++ {
			if round > 0 {
				ctx = world.Ctx(o.vars, o.params)
				at += " (evaluated again)"
			}
			out := world.Eval(p, ctx)
			w.R.Trace(1)
			if out.Panic != "" || out.Bad != "" {
				return "gives " + out.String() + at
			}
			if !updates && out.Err == nil && exp.St == ref.OK && o.after == nil && (bi > 0 || round > 0) {
				// A query that only reads: the graph is read after the
				// first evaluation
				if rowsText(out.Rows, o.ordered) != wantRows {
					return "gives\n    " + rowsText(out.Rows, o.ordered) + "\n  expected\n    " + wantRows + at
				}
				continue
			}
			snap, err := world.Snapshot()
			if err != nil {
				return "leaves an inconsistent graph: " + err.Error() + at
			}
			if s := compareOutcome(g, q, o, exp, wantC, out, snap, fn, fe, opts, updates, w); s != "" {
				return s + at
			}
			if o.after != nil {
				if s := o.after(world, ctx); s != "" {
					return s + at
				}
			}
		}
	}
	w.R.Sample(func() string { return q.Str() + " on " + g.String() + " -> " + wantC })
	return ""
}

func compareOutcome(g *ref.Graph, q ref.Query, o qopts, exp ref.Result, wantC string, out sut.Outcome, snap *ref.Graph, fn ref.NodeID, fe ref.EdgeID, opts ref.Opts, updates bool, w *mc.W) string {
	// The order of the rows of reading clauses is not specified
	otherOrder := func() bool {
		if !updates || o.exact || exp.MaxRows < 2 {
			return false
		}
		got := ""
		if out.Err == nil {
			got = ref.Canon(snap, out.Rows, o.ordered, fn, fe)
		}
		return anyOrder(g, q, opts, func(res ref.Result) bool {
			switch res.St {
			case ref.UNSPEC:
				return true
			case ref.ERR:
				return out.Err != nil
			}
			return out.Err == nil && ref.Canon(res.G, res.Rows, o.ordered, fn, fe) == got
		}, exp.MaxRows, w)
	}
	if exp.St != ref.OK {
		if exp.St == ref.ERR && out.Err == nil && otherOrder() {
			return ""
		}
		if exp.St == ref.ERR && out.Err == nil {
			return "gives " + out.String() + ", expected an error"
		}
		if !updates || exp.St == ref.ERR && out.Err != nil && graphUnchangedOnError(g, q, opts) {
			if snap.String() != g.String() {
				return fmt.Sprintf("changes the graph to %s although it %s", snap, map[bool]string{true: "only reads", false: "fails"}[!updates])
			}
		}
		return ""
	}
	if out.Err != nil {
		if otherOrder() {
			return ""
		}
		return "gives error '" + out.Err.Error() + "', expected " + wantC
	}
	if !updates && snap.String() != g.String() {
		return fmt.Sprintf("changes the graph to %s although it only reads", snap)
	}
	got := ""
	if !updates {
		got = rowsText(out.Rows, o.ordered)
	} else {
		got = ref.Canon(snap, out.Rows, o.ordered, fn, fe)
	}
	if got != wantC {
		if !otherOrder() {
			return "gives\n    " + got + "\n  expected\n    " + wantC
		}
	}
	last := q.Singles[0].Ret
	if last != nil && !last.Star && strings.Join(out.Cols, "\x00") != strings.Join(exp.Cols, "\x00") {
		return fmt.Sprintf("has columns %q, expected %q", out.Cols, exp.Cols)
	}
	return ""
}

// maxOrders is how many combinations of row orders are tried
const maxOrders = 1500

// anyOrder tries all orders of the rows of reading clauses and of the
// matches of MERGE. If there are too many the outcome is not judged: it
// counts as unspecified.
func anyOrder(g *ref.Graph, q ref.Query, opts ref.Opts, f func(ref.Result) bool, rows int, w *mc.W) bool {
	var choice, size []int
	for tries := 0; ; tries++ {
		if tries >= maxOrders {
			w.R.Note("too_many_row_orders_not_judged", 1)
			return true
		}
		at := 0
		tooMany := false
		op := opts
		op.Perm = func(n int) []int {
			if n < 2 {
				return nil
			}
			if n > 7 {
				tooMany = true
				return nil
			}
			if at == len(choice) {
				choice, size = append(choice, 0), append(size, n)
			}
			size[at] = n
			at++
			return nthPerm(n, choice[at-1])
		}
		if f(ref.Run(g, q, op)) {
			return true
		}
		if tooMany {
			w.R.Note("too_many_row_orders_not_judged", 1)
			return true
		}
		choice, size = choice[:at], size[:at]
		i := at - 1
		for ; i >= 0; i-- {
			choice[i]++
			if nthPerm(size[i], choice[i]) != nil {
				break
			}
		}
		if i < 0 {
			return false
		}
		choice, size = choice[:i+1], size[:i+1]
	}
}

// nthPerm gives the k-th permutation of n elements, nil if there is none
func nthPerm(n, k int) []int {
	fact := 1
	for i := 2; i <= n; i++ {
		fact *= i
	}
	if k >= fact {
		return nil
	}
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	p := make([]int, 0, n)
	for i := n; i > 0; i-- {
		fact /= i
		j := k / fact
		k %= fact
		p = append(p, rest[j])
		rest = append(rest[:j:j], rest[j+1:]...)
	}
	return p
}

// permutations of 0..n-1
func permutations(n int) [][]int {
	var out [][]int
	for k := 0; ; k++ {
		p := nthPerm(n, k)
		if p == nil {
			return out
		}
		out = append(out, p)
	}
}

func sortedRows(rows []ref.Row) []string {
	var r []string
	for _, x := range rows {
		r = append(r, x.Key())
	}
	sort.Strings(r)
	return r
}

func rowsText(rows []ref.Row, ordered bool) string {
	r := make([]string, 0, len(rows))
	for _, x := range rows {
		r = append(r, x.Key())
	}
	if !ordered {
		sort.Strings(r)
	}
	return strings.Join(r, " ; ")
}
