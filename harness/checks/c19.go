package checks

import (
	"fmt"
	"sort"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C19", Level: "model_checking",
		Bounds: "all sequences of up to 3 (thorough 4) operations on a tree of 5 contexts and an unrelated one: setting and removing variables, setting parameters, making new sub-contexts, and 16 queries (creating, merging, matching with bound, unbound and stale variables, reading parameters, unions, failing); after every operation all variables and parameters are read in all contexts, by the API and by queries" + sizeBounds,
		Assume: []string{"variables that a query only matches, without projecting them, may be set or not", "deleted elements are not used"},
		Fn:     runC19,
	})
}

// mctx is a context of the model
type mctx struct {
	parent       int
	vars, params map[string]ref.V
}

type ctxModel struct {
	w    *sut.World
	real []*oc.EvalContext
	ctx  []*mctx
	g    *ref.Graph
}

func (m *ctxModel) add(parent int) {
	c := &mctx{parent: parent, vars: map[string]ref.V{}, params: map[string]ref.V{}}
	m.ctx = append(m.ctx, c)
	if parent < 0 {
		m.real = append(m.real, oc.NewEvalContext(m.w.G))
	} else {
		m.real = append(m.real, m.real[parent].SubContext())
	}
}

func (m *ctxModel) vars(i int) map[string]ref.V {
	out := map[string]ref.V{}
	for ; i >= 0; i = m.ctx[i].parent {
		for k, v := range m.ctx[i].vars {
			if _, ok := out[k]; !ok {
				out[k] = v
			}
		}
	}
	return out
}

func (m *ctxModel) params(i int) map[string]ref.V {
	out := map[string]ref.V{}
	for ; i >= 0; i = m.ctx[i].parent {
		for k, v := range m.ctx[i].params {
			if _, ok := out[k]; !ok {
				out[k] = v
			}
		}
	}
	return out
}

// ctxQuery is a query with the variables it must and may set
type ctxQuery struct {
	hop
	// must are set to the values of a row, new to new elements
	must, created, may []string
}

type ctxOp struct {
	text string
	// at is the context
	at   int
	kind string
	name string
	val  func(m *ctxModel) ref.V
	q    ctxQuery
}

var ctxNames = []string{"x", "y", "e"}
var ctxParams = []string{"p", "q"}

func ctxQueries() []ctxQuery {
	var out []ctxQuery
	ret := func(vs ...string) *ref.Return {
		r := &ref.Return{}
		for _, v := range vs {
			r.Items = append(r.Items, ref.Item{E: ref.Var(v), As: v})
		}
		return r
	}
	m := func(ps ...ref.Part) []ref.Match { return []ref.Match{{Parts: ps}} }
	add := func(q ref.Query, must, created, may []string) {
		out = append(out, ctxQuery{mkHop(q), must, created, may})
	}
	X := ref.RelPat{Var: "e", Types: []string{"X"}}
	pp := ref.MapX{{K: "p", E: ref.Param("p")}}
	l := func(v ...string) []string { return v }
	add(ref.Q(nil, []ref.Update{ref.Create{Parts: []ref.Part{nodePart(nP("x", "A"))}}}, nil), nil, l("x"), nil)
	add(ref.Q(nil, []ref.Update{ref.Create{Parts: []ref.Part{part(nP("x"), X, nP("y", "B"))}}}, ret("x", "e", "y")), l("x", "e", "y"), nil, nil)
	add(ref.Q(m(nodePart(nP("x", "A"))), nil, ret("x")), l("x"), nil, nil)
	add(ref.Q(m(part(nP("x"), X, nP("y"))), nil, ret("x", "e", "y")), l("x", "e", "y"), nil, nil)
	add(ref.Q(m(nodePart(nP("y"))), nil, &ref.Return{Items: []ref.Item{{E: ref.Var("y"), As: "a"}, {E: ref.Param("p"), As: "b"}}}), nil, nil, l("y"))
	add(ref.Q([]ref.Match{{Parts: []ref.Part{nodePart(nP("x", "B"))}}, {Optional: true, Parts: []ref.Part{part(nP("x"), X, nP("y"))}}}, nil, ret("x", "y")), l("x", "y"), nil, l("e"))
	add(ref.Q(nil, nil, &ref.Return{Items: []ref.Item{{E: ref.Var("x")}, {E: ref.Param("p")}}}), nil, nil, nil)
	add(ref.Q(m(nodePart(ref.NodePat{Var: "y", Props: pp})), nil, ret("y")), l("y"), nil, nil)
	add(ref.Q(nil, []ref.Update{ref.Create{Parts: []ref.Part{nodePart(ref.NodePat{Var: "y", Labels: []string{"A"}, Props: pp})}}}, ret("y")), l("y"), nil, nil)
	add(ref.Q(nil, []ref.Update{ref.Merge{Part: part(nP("x", "A"), X, nP("y", "B"))}}, nil), nil, nil, l("x", "y", "e"))
	add(ref.Q(nil, []ref.Update{ref.Merge{Part: nodePart(nP("x", "B"))}}, ret("x")), l("x"), nil, nil)
	add(ref.Q(m(nodePart(nP("x", "A"))), []ref.Update{ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "x", Key: "p", E: ref.Param("p")}}}}, ret("x")), l("x"), nil, nil)
	add(ref.Q(nil, nil, &ref.Return{Items: []ref.Item{{E: ref.Var("y"), As: "x"}}}), nil, nil, nil)
	add(ref.Q(m(nodePart(nP("x")), nodePart(nP("y", "A"))), []ref.Update{ref.Create{Parts: []ref.Part{part(nP("x"), X, nP("y"))}}}, ret("x", "e", "y")), l("x", "e", "y"), nil, nil)
	add(ref.Q(m(nodePart(nP("x"))), []ref.Update{ref.Create{Parts: []ref.Part{nodePart(nP("y", "B"))}}}, ref1("y", ref.Bin{Op: "/", A: lit(1), B: lit(0)})), nil, nil, nil)
	u := ref.Query{Singles: []ref.Single{{Reads: m(nodePart(nP("x", "A"))), Ret: ret("x")}, {Reads: m(nodePart(nP("y", "B"))), Ret: &ref.Return{Items: []ref.Item{{E: ref.Var("y"), As: "x"}}}}}, All: []bool{true}}
	add(u, nil, nil, l("x", "y"))
	return out
}

func ref1(as string, e ref.Expr) *ref.Return {
	return &ref.Return{Items: []ref.Item{{E: e, As: as}}}
}

func ctxOps(full bool) []ctxOp {
	var out []ctxOp
	node := func(k int) func(m *ctxModel) ref.V {
		return func(m *ctxModel) ref.V { return ref.NodeID(k) }
	}
	val := func(v ref.V) func(m *ctxModel) ref.V { return func(*ctxModel) ref.V { return v } }
	qs := ctxQueries()
	for at := 0; at < 6; at++ {
		n := fmt.Sprintf("c%d", at)
		out = append(out,
			ctxOp{text: n + ".SetVar(x, 1)", at: at, kind: "var", name: "x", val: val(1)},
			ctxOp{text: n + ".SetVar(x, node 0)", at: at, kind: "var", name: "x", val: node(0)},
			ctxOp{text: n + ".SetVar(y, node 1)", at: at, kind: "var", name: "y", val: node(1)},
			ctxOp{text: n + ".SetVar(x, null)", at: at, kind: "var", name: "x", val: val(nil)},
			ctxOp{text: n + ".RemoveVar(x)", at: at, kind: "unvar", name: "x"},
			ctxOp{text: n + ".SetParameter(p, 1)", at: at, kind: "param", name: "p", val: val(1)},
			ctxOp{text: n + ".SetParameter(p, 'a')", at: at, kind: "param", name: "p", val: val("a")},
			ctxOp{text: n + ".SetParameter(p, null)", at: at, kind: "param", name: "p", val: val(nil)},
			ctxOp{text: n + ".SetVars(x, y)", at: at, kind: "vars", name: "x", val: node(1)},
		)
		if at < 5 {
			out = append(out, ctxOp{text: n + ".SubContext()", at: at, kind: "sub"})
		}
		for _, q := range qs {
			out = append(out, ctxOp{text: n + ": " + q.text, at: at, kind: "query", q: q})
		}
	}
	_ = full
	return out
}

// newCtxModel makes the contexts: 0 is the parent of 1 and 2, 1 of 3; 4
// is unrelated; 5 is made by an operation
func newCtxModel() *ctxModel {
	g := ref.NewGraph()
	a := g.AddNode([]string{"A"}, ref.Map{"p": 1})
	b := g.AddNode([]string{"B"}, nil)
	g.AddEdge(a, b, "X", nil)
	m := &ctxModel{w: sut.Build(g, sut.BuildOpts{}), g: g}
	m.add(-1)
	m.add(0)
	m.add(0)
	m.add(1)
	m.add(-1)
	return m
}

func keysOf(m map[string]ref.V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// observe reads all variables and parameters in all contexts
func (m *ctxModel) observe(w *mc.W, queries bool) string {
	for i, c := range m.real {
		vars, params := m.vars(i), m.params(i)
		for _, n := range ctxNames {
			want, ok := vars[n]
			v, err := c.GetVar(n)
			if ok != (err == nil) {
				return fmt.Sprintf("c%d.GetVar(%s) gives %v, expected it to be set: %v", i, n, err, ok)
			}
			if ok && ref.Key(m.w.Model(v.Get())) != ref.Key(want) {
				return fmt.Sprintf("c%d.GetVar(%s) gives %s, expected %s", i, n, ref.Key(m.w.Model(v.Get())), ref.Key(want))
			}
			if !queries {
				continue
			}
			if s := m.read(w, i, "RETURN "+n, want, ok); s != "" {
				return s
			}
		}
		for _, n := range ctxParams {
			want, ok := params[n]
			v, err := c.GetParameter("$" + n)
			if ok != (err == nil) {
				return fmt.Sprintf("c%d.GetParameter($%s) gives %v, expected it to be set: %v", i, n, err, ok)
			}
			if ok && ref.Key(m.w.Model(v.Get())) != ref.Key(want) {
				return fmt.Sprintf("c%d.GetParameter($%s) gives %s, expected %s", i, n, ref.Key(m.w.Model(v.Get())), ref.Key(want))
			}
			if !queries {
				continue
			}
			if s := m.read(w, i, "RETURN $"+n, want, ok); s != "" {
				return s
			}
		}
		// The variables of the context itself
		near := c.GetVarsNearestScope()
		for k := range near {
			if _, ok := m.ctx[i].vars[k]; !ok {
				return fmt.Sprintf("c%d has the variable %q", i, k)
			}
		}
		for k := range m.ctx[i].vars {
			if _, ok := near[k]; !ok {
				return fmt.Sprintf("c%d does not have the variable %q itself", i, k)
			}
		}
	}
	return ""
}

func (m *ctxModel) read(w *mc.W, i int, text string, want ref.V, ok bool) string {
	p, err := w.Cache.Parse(text)
	if err != nil {
		return text + " does not parse: " + err.Error()
	}
	v, err, bad := evalExpr(m.w, p, m.real[i])
	st := ref.OK
	if !ok {
		st = ref.ERR
	}
	if s := cmpValue(want, st, v, err, bad); s != "" {
		return fmt.Sprintf("c%d: %s %s", i, text, s)
	}
	return ""
}

// apply runs an operation; ok is false if it is not possible
func (m *ctxModel) apply(w *mc.W, op ctxOp, judge bool) (ok bool, what string) {
	w.R.Trans(1)
	if op.at >= len(m.ctx) {
		return false, ""
	}
	c, real := m.ctx[op.at], m.real[op.at]
	switch op.kind {
	case "var":
		v := op.val(m)
		real.SetVar(op.name, m.w.Value(v))
		c.vars[op.name] = v
	case "vars":
		v := op.val(m)
		real.SetVars(map[string]oc.Value{"x": m.w.Value(v), "y": m.w.Value(2), "7": m.w.Value(3)})
		c.vars["x"], c.vars["y"] = v, 2
	case "unvar":
		real.RemoveVar(op.name)
		delete(c.vars, op.name)
	case "param":
		v := op.val(m)
		real.SetParameter("$"+op.name, m.w.Value(v))
		c.params[op.name] = v
	case "sub":
		if len(m.ctx) > 5 {
			return false, ""
		}
		m.add(op.at)
	case "query":
		p, err := w.Cache.Parse(op.q.text)
		if err != nil {
			return true, op.q.text + " does not parse: " + err.Error()
		}
		for _, single := range op.q.q.Singles {
			for k, v := range m.vars(op.at) {
				if _, isInt := v.(int); !isInt {
					continue
				}
				parts := allParts(single.Reads)
				for _, u := range single.Upds {
					switch x := u.(type) {
					case ref.Create:
						parts = append(parts, x.Parts...)
					case ref.Merge:
						parts = append(parts, x.Part)
					}
				}
				for _, x := range ref.PartVars(parts) {
					if x == k {
						// A number in a pattern matches nothing or is
						// an error
						out := m.w.Eval(p, real)
						if out.Panic != "" || out.Bad != "" || out.Err == nil && len(single.Upds) == 0 && len(op.q.q.Singles) == 1 && len(out.Rows) > 0 {
							return true, fmt.Sprintf("gives %s although %s is a number", out.String(), k)
						}
						w.R.Unspec()
						return false, ""
					}
				}
			}
		}
		snap, exp, out, s := stepOut(w, m.w, m.g, p, op.q.q, real, qopts{vars: m.vars(op.at), params: m.params(op.at)})
		if s != "" {
			return true, "on " + m.g.String() + " " + s
		}
		before := m.g
		m.g = snap
		if exp.St == ref.UNSPEC {
			// Its variables are not specified either
			return false, ""
		}
		if out.Err != nil {
			return true, ""
		}
		for _, n := range op.q.created {
			if _, bound := m.vars(op.at)[n]; bound {
				continue
			}
			v, err := real.GetVar(n)
			if err != nil {
				return true, fmt.Sprintf("does not set %s: %v", n, err)
			}
			id, isNode := m.w.Model(v.Get()).(ref.NodeID)
			if _, old := before.Nodes[id]; !isNode || old || snap.Nodes[id] == nil {
				return true, fmt.Sprintf("sets %s to %s, which is not the new node", n, ref.Key(m.w.Model(v.Get())))
			}
			c.vars[n] = id
		}
		near := real.GetVarsNearestScope()
		if len(out.Rows) > 0 && len(op.q.must) > 0 {
			found := false
			for _, row := range out.Rows[len(out.Rows)-1:] {
				same := true
				for _, n := range op.q.must {
					v, err := real.GetVar(n)
					same = same && err == nil && ref.Key(m.w.Model(v.Get())) == ref.Key(row[n])
				}
				if same {
					found = true
					for _, n := range op.q.must {
						if _, set := near[n]; set {
							c.vars[n] = row[n]
						}
					}
				}
			}
			if !found {
				return true, fmt.Sprintf("gives %s but sets the variables to %s", out.String(), ref.Key(ref.Map(m.got(op.at, op.q.must))))
			}
		}
		for _, n := range append(append([]string{}, op.q.may...), ctxNames...) {
			// A variable that is bound may be set again
			if v, set := near[n]; set {
				got := m.w.Model(v.Get())
				old, was := m.vars(op.at)[n]
				may := was && ref.Key(old) == ref.Key(got)
				for _, x := range op.q.may {
					may = may || x == n
				}
				if may {
					c.vars[n] = got
				}
			}
		}
	}
	return true, ""
}

func (m *ctxModel) got(i int, names []string) map[string]ref.V {
	out := map[string]ref.V{}
	for _, n := range names {
		if v, err := m.real[i].GetVar(n); err == nil {
			out[n] = m.w.Model(v.Get())
		}
	}
	return out
}

func (m *ctxModel) text() string {
	s := m.g.Text()
	for i, c := range m.ctx {
		s += fmt.Sprintf("/%d:%d%s%s", i, c.parent, ref.Key(ref.Map(c.vars)), ref.Key(ref.Map(c.params)))
	}
	return s
}

func runC19(r *mc.Run) {
	sizesC19(r)
	ops := ctxOps(r.Thorough)
	n := len(ops)
	r.Note("operations", int64(n))
	depth := 3
	if r.Thorough {
		depth = 4
	}
	seen := &mc.Set{}
	// A history is run from the start; its prefixes are judged before
	run := func(w *mc.W, hs []int) (ok bool) {
		key := ""
		for i, k := range hs {
			if i > 0 {
				key += "; "
			}
			key += ops[k].text
		}
		if r.Only != "" && r.Only != key {
			return true
		}
		w.Case(key, func() string {
			m := newCtxModel()
			for i, k := range hs {
				done, what := m.apply(w, ops[k], true)
				if what != "" {
					return what
				}
				if !done {
					return ""
				}
				last := i == len(hs)-1
				if last {
					ok = true
				}
				if s := m.observe(w, last && seen.Add(m.text())); s != "" {
					return s
				}
			}
			r.State(m.text())
			return ""
		})
		return ok
	}
	r.Par(n*n, func(w *mc.W, k int) {
		if k%n == 0 {
			run(w, []int{k / n})
		}
		var rec func(hs []int)
		rec = func(hs []int) {
			if r.Stopped() || !run(w, hs) || len(hs) == depth {
				return
			}
			for i := 0; i < n; i++ {
				rec(append(hs[:len(hs):len(hs)], i))
			}
		}
		rec([]int{k / n, k % n})
	})
}
