package checks

import (
	"fmt"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C08", Level: "model_checking",
		Bounds: "expressions: all constructs with up to three operands (literals, parameters, variables, properties, function results) and constructs nested in unary ones; every sequence of two assignments after every first assignment, and every two rows; queries: reading and updating templates in every sequence of two environments after every first one; repeated evaluations of queries with maps and lists on one graph; functions that are replaced between evaluations" + sizeBounds,
		Assume: []string{"the embedding program does not modify values it got as results"},
		Fn:     runC08,
	})
	// ident gives its argument, constant or not
	oc.RegisterGlobalFunc(oc.Function{Name: "ident", MinArgs: 1, MaxArgs: 1, ValueFunc: func(_ *oc.EvalContext, args []oc.Value) (oc.Value, error) {
		return oc.RValue{Value: args[0].Get(), Const: true}, nil
	}})
	for _, name := range []string{"my.ident", "my.ident2", "my.sub.ident"} {
		oc.RegisterGlobalFunc(oc.Function{Name: name, MinArgs: 1, MaxArgs: 1, ValueFunc: func(_ *oc.EvalContext, args []oc.Value) (oc.Value, error) {
			return oc.RValue{Value: args[0].Get()}, nil
		}})
	}
	ref.Custom["ident"] = func(args []ref.V) (ref.V, ref.St) { return args[0], ref.OK }
	// tick counts in its argument
	oc.RegisterGlobalFunc(oc.Function{Name: "tick", MinArgs: 1, MaxArgs: 1, ValueFunc: func(_ *oc.EvalContext, args []oc.Value) (oc.Value, error) {
		n, ok := args[0].Get().(*int)
		if !ok {
			return nil, fmt.Errorf("not a counter")
		}
		*n++
		return oc.RValue{Value: *n, Const: true}, nil
	}})
}

func runC08(r *mc.Run) {
	sizesC08(r)
	reuseExpressions(r)
	reuseQueries(r)
	reuseHistories(r)
	reuseFunctions(r)
}

// construct makes an expression of n operands
type construct struct {
	n  int
	mk func(h []ref.Expr) ref.Expr
}

func constructs() []construct {
	var out []construct
	add := func(n int, f func(h []ref.Expr) ref.Expr) { out = append(out, construct{n, f}) }
	one := lit(1)
	list := ref.ListX{lit(1), lit("a"), lit(true)}
	add(1, func(h []ref.Expr) ref.Expr { return h[0] })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Neg{E: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Not{E: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.IsNull{E: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.IsNull{E: h[0], Not: true} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.ListX{h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.ListX{one, h[0], one} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.MapX{{K: "a", E: h[0]}} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.MapX{{K: "a", E: one}, {K: "b", E: h[0]}} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Index{E: list, I: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Index{E: h[0], I: lit(0)} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Slice{E: list, From: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Slice{E: list, To: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Slice{E: h[0], From: lit(0), To: lit(1)} })
	add(1, func(h []ref.Expr) ref.Expr {
		return ref.Case{Test: h[0], When: []ref.Expr{one, lit("a")}, Then: []ref.Expr{lit("one"), lit("letter")}, Else: lit("other")}
	})
	add(1, func(h []ref.Expr) ref.Expr {
		return ref.Case{When: []ref.Expr{h[0]}, Then: []ref.Expr{lit("yes")}, Else: lit("no")}
	})
	add(1, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "IN", A: h[0], B: list} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "IN", A: one, B: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "+", A: h[0], B: one} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "*", A: lit(2), B: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return cmp(h[0], "=", one) })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "AND", A: h[0], B: lit(true)} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "OR", A: lit(false), B: h[0]} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Call{F: "toInteger", Args: []ref.Expr{h[0]}} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Call{F: "ident", Args: []ref.Expr{h[0]}} })
	add(1, func(h []ref.Expr) ref.Expr { return ref.Call{F: "range", Args: []ref.Expr{one, h[0]}} })
	for _, op := range []string{"+", "-", "*", "/", "%", "^", "AND", "OR", "XOR", "IN", "STARTS WITH", "ENDS WITH", "CONTAINS"} {
		op := op
		add(2, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: op, A: h[0], B: h[1]} })
	}
	for _, op := range []string{"=", "<>", "<", "<=", ">", ">="} {
		op := op
		add(2, func(h []ref.Expr) ref.Expr { return cmp(h[0], op, h[1]) })
	}
	add(2, func(h []ref.Expr) ref.Expr { return ref.ListX{h[0], h[1]} })
	add(2, func(h []ref.Expr) ref.Expr { return ref.MapX{{K: "a", E: h[0]}, {K: "b", E: h[1]}} })
	add(2, func(h []ref.Expr) ref.Expr { return ref.Index{E: h[0], I: h[1]} })
	add(2, func(h []ref.Expr) ref.Expr { return ref.Slice{E: h[0], From: h[1]} })
	add(2, func(h []ref.Expr) ref.Expr { return ref.Slice{E: h[0], To: h[1]} })
	add(2, func(h []ref.Expr) ref.Expr {
		return ref.Case{Test: h[0], When: []ref.Expr{h[1]}, Then: []ref.Expr{one}, Else: lit(2)}
	})
	add(2, func(h []ref.Expr) ref.Expr {
		return ref.Case{When: []ref.Expr{ref.IsNull{E: h[0]}}, Then: []ref.Expr{h[1]}, Else: h[0]}
	})
	bins := func(ops ...string) {
		for _, a := range ops {
			for _, b := range ops {
				a, b := a, b
				add(3, func(h []ref.Expr) ref.Expr {
					return ref.Bin{Op: b, A: ref.Bin{Op: a, A: h[0], B: h[1]}, B: h[2]}
				})
			}
		}
	}
	bins("+", "-")
	bins("*", "/")
	bins("AND", "OR")
	bins("XOR")
	add(3, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "+", A: h[0], B: ref.Bin{Op: "*", A: h[1], B: h[2]}} })
	add(3, func(h []ref.Expr) ref.Expr {
		return ref.Cmp{First: h[0], Ops: []string{"<", "<="}, Rest: []ref.Expr{h[1], h[2]}}
	})
	add(3, func(h []ref.Expr) ref.Expr { return ref.Slice{E: h[0], From: h[1], To: h[2]} })
	add(3, func(h []ref.Expr) ref.Expr { return ref.ListX{h[0], h[1], h[2]} })
	add(3, func(h []ref.Expr) ref.Expr {
		return ref.MapX{{K: "a", E: h[0]}, {K: "b", E: h[1]}, {K: "c", E: h[2]}}
	})
	add(3, func(h []ref.Expr) ref.Expr {
		return ref.Case{Test: h[0], When: []ref.Expr{h[1]}, Then: []ref.Expr{h[2]}, Else: lit("none")}
	})
	add(3, func(h []ref.Expr) ref.Expr { return ref.Bin{Op: "IN", A: h[0], B: ref.ListX{h[1], h[2]}} })
	add(3, func(h []ref.Expr) ref.Expr { return cmp(ref.ListX{h[0], h[1]}, "=", ref.ListX{h[2], h[1]}) })
	add(3, func(h []ref.Expr) ref.Expr { return ref.Call{F: "substring", Args: []ref.Expr{h[0], h[1], h[2]}} })
	return out
}

// reuseEnvs are the values of a, b, c
func reuseEnvs() [][3]ref.V {
	return [][3]ref.V{
		{1, 2, 3},
		{true, false, nil},
		{"abc", "b", 1},
		{nil, 1, true},
		{ref.List{1, 2, 3}, 1, 2},
		{2, 0, 0},
		{false, true, true},
		{1.5, -1, "x"},
		{"b", ref.List{"b", nil}, ref.List{}},
		{ref.Map{"a": 1}, ref.Map{"a": 1}, "a"},
	}
}

// pairSequence goes through all ordered pairs of 0..k-1 and starts with first
func pairSequence(k, first int) []int {
	// An Eulerian circuit of the complete directed graph
	next := make([]int, k)
	var out []int
	stack := []int{first}
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		if next[v] < k {
			stack = append(stack, (first+next[v])%k)
			next[v]++
			continue
		}
		out = append(out, v)
		stack = stack[:len(stack)-1]
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type reuseWorld struct {
	w   *sut.World
	env []*ref.Env
	// ctx makes a context of an environment
	ctx []func() *oc.EvalContext
	// pairs are graphs with two nodes
	pair map[[2]int]*sut.World
}

// newReuseWorld has a node for each environment: its properties are the
// operands. They are also the values of parameters and variables.
func newReuseWorld(envs [][3]ref.V) *reuseWorld {
	g := ref.NewGraph()
	for _, e := range envs {
		m := ref.Map{}
		for i, v := range e {
			if v != nil {
				m[pnames[i]] = v
			}
		}
		g.AddNode(nil, m)
	}
	x := &reuseWorld{w: sut.Build(g, sut.BuildOpts{}), pair: map[[2]int]*sut.World{}}
	for i, e := range envs {
		vars := map[string]ref.V{"n": ref.NodeID(i)}
		params := map[string]ref.V{}
		for k, v := range e {
			vars[string(rune('x'+k))] = v
			params[pnames[k]] = v
		}
		x.env = append(x.env, &ref.Env{G: g, Vars: vars, Params: params})
		x.ctx = append(x.ctx, func() *oc.EvalContext {
			ctx := oc.NewEvalContext(x.w.G)
			for k, v := range vars {
				ctx.SetVar(k, oc.RValue{Value: x.w.Native(v), Const: true})
			}
			for k, v := range params {
				ctx.SetParameter("$"+k, oc.RValue{Value: x.w.Native(v), Const: true})
			}
			return ctx
		})
	}
	for i, a := range envs {
		for j, b := range envs {
			h := ref.NewGraph()
			for _, e := range [][3]ref.V{a, b} {
				m := ref.Map{}
				for k, v := range e {
					if v != nil {
						m[pnames[k]] = v
					}
				}
				h.AddNode(nil, m)
			}
			x.pair[[2]int{i, j}] = sut.Build(h, sut.BuildOpts{})
		}
	}
	return x
}

// leaf gives an operand of some kind for the operand number i
func leaf(kind, i int) ref.Expr {
	switch kind {
	case 0:
		return ref.Param(pnames[i])
	case 1:
		return ref.Var(string(rune('x' + i)))
	case 2:
		return prop("n", pnames[i])
	case 3:
		return ref.Call{F: "ident", Args: []ref.Expr{ref.Param(pnames[i])}}
	case 4:
		return lit(1)
	case 5:
		return lit(true)
	case 6:
		return lit("b")
	}
	return ref.ListX{lit(1), lit("a")}
}

func valueText(v ref.V, err error, bad string) string {
	if bad != "" {
		return bad
	}
	if err != nil {
		return "an error"
	}
	return ref.Key(v)
}

func reuseExpressions(r *mc.Run) {
	envs := reuseEnvs()
	cs := constructs()
	type item struct {
		e    ref.Expr
		rows bool
	}
	var items []item
	seen := map[string]bool{}
	add := func(e ref.Expr, rows bool) {
		t := e.Str()
		if !seen[t] {
			seen[t] = true
			items = append(items, item{e, rows})
		}
	}
	combos := func(n, kinds int, f func(k []int)) {
		k := make([]int, n)
		for {
			f(k)
			i := 0
			for ; i < n; i++ {
				k[i]++
				if k[i] < kinds {
					break
				}
				k[i] = 0
			}
			if i == n {
				return
			}
		}
	}
	build := func(c construct, k []int) ref.Expr {
		h := make([]ref.Expr, c.n)
		for i := range h {
			h[i] = leaf(k[i], i)
		}
		return c.mk(h)
	}
	for _, c := range cs {
		kinds := []int{0, 1, 2, 3, 4, 5, 6, 7}
		if c.n == 2 && !r.Thorough {
			kinds = []int{0, 1, 2, 3, 4, 6}
		}
		if c.n == 3 && !r.Thorough {
			kinds = []int{0, 2, 4}
		}
		combos(c.n, len(kinds), func(k []int) {
			x := make([]int, len(k))
			for i := range k {
				x[i] = kinds[k[i]]
			}
			add(build(c, x), true)
		})
	}
	direct := len(items)
	for _, c := range cs {
		if c.n != 1 {
			continue
		}
		for _, d := range cs {
			kinds := []int{0, 1, 2, 3, 4}
			if d.n == 3 && !r.Thorough {
				continue
			}
			if !r.Thorough {
				kinds = []int{0, 4, 2}[:4-d.n]
			}
			combos(d.n, len(kinds), func(k []int) {
				x := make([]int, len(k))
				for i := range k {
					x[i] = kinds[k[i]]
				}
				add(c.mk([]ref.Expr{build(d, x)}), r.Thorough)
			})
		}
	}
	r.Note("expressions", int64(direct))
	r.Note("nested_expressions", int64(len(items)-direct))
	firsts := len(envs)
	if !r.Thorough {
		firsts = 5
	}
	r.Par(len(items), func(w *mc.W, i int) {
		it := items[i]
		text := "RETURN " + it.e.Str()
		x, _ := w.Data["reuse"].(*reuseWorld)
		if x == nil {
			x = newReuseWorld(envs)
			w.Data["reuse"] = x
		}
		firsts := firsts
		if i >= direct && !r.Thorough {
			firsts = 3
		}
		w.Case("expression "+text, func() string {
			// What a copy gives that was not evaluated before
			fresh := make([]string, len(envs))
			qs := make([]oc.Evaluatable, len(envs))
			for k := range envs {
				if k >= firsts {
					// Specified by the reference
					continue
				}
				q, err := sut.SafeParse(text)
				if err != nil {
					return "does not parse: " + err.Error()
				}
				qs[k] = q
				v, st := it.e.Eval(x.env[k])
				gv, gerr, bad := evalExpr(x.w, q, x.ctx[k]())
				w.R.Trans(1)
				if s := cmpValue(v, st, gv, gerr, bad); s != "" {
					return "assignment " + envText(x.env[k].Params) + " " + s
				}
				fresh[k] = valueText(gv, gerr, bad)
				w.R.State(text + fresh[k])
			}
			for k := firsts; k < len(envs); k++ {
				v, st := it.e.Eval(x.env[k])
				switch st {
				case ref.OK:
					fresh[k] = ref.Key(v)
				case ref.ERR:
					fresh[k] = "an error"
				}
			}
			for k, q := range qs {
				if q == nil {
					continue
				}
				prev := k
				for _, s := range pairSequence(len(envs), k) {
					got := valueText(evalExpr(x.w, q, x.ctx[s]()))
					w.R.Trace(1)
					if fresh[s] != "" && got != fresh[s] {
						return fmt.Sprintf("gives %s with%s after it was evaluated first with%s and last with%s; a fresh copy gives %s", got, envText(x.env[s].Params), envText(x.env[k].Params), envText(x.env[prev].Params), fresh[s])
					}
					if fresh[s] == "" {
						fresh[s] = got
					}
					prev = s
				}
			}
			if !it.rows || !strings.Contains(text, "n.") || strings.ContainsAny(text, "$xyz") {
				return ""
			}
			// The same in the rows of one evaluation
			for k := 0; k < firsts; k++ {
				q, err := sut.SafeParse("MATCH (n) " + text + " AS v")
				if err != nil {
					return "does not parse: " + err.Error()
				}
				for j := range envs {
					pw := x.pair[[2]int{k, j}]
					out := pw.Eval(q, oc.NewEvalContext(pw.G))
					w.R.Trace(1)
					got := out.String()
					want := "an error"
					if fresh[k] != "an error" && fresh[j] != "an error" {
						want = fresh[k] + ", " + fresh[j]
					}
					if out.Err != nil {
						got = "an error"
					} else if len(out.Rows) == 2 {
						got = ref.Key(out.Rows[0]["v"]) + ", " + ref.Key(out.Rows[1]["v"])
					}
					if got != want {
						return fmt.Sprintf("in the rows%s and%s gives %s, expected %s", envText(x.env[k].Params), envText(x.env[j].Params), got, want)
					}
				}
			}
			return ""
		})
	})
}

// reuseEnv is an environment of a query
type reuseEnv struct {
	g            *ref.Graph
	vars, params map[string]ref.V
	text         string
}

func reuseQueryEnvs() []reuseEnv {
	g0 := ref.NewGraph()
	g1 := ref.NewGraph()
	a := g1.AddNode([]string{"A"}, ref.Map{"p": 1, "q": "s"})
	b := g1.AddNode([]string{"B"}, ref.Map{"p": 2})
	g1.AddEdge(a, b, "X", ref.Map{"p": 1})
	g2 := ref.NewGraph()
	c := g2.AddNode([]string{"A", "B"}, ref.Map{"p": 2})
	d := g2.AddNode([]string{"A"}, ref.Map{"p": 1})
	g2.AddEdge(c, d, "X", ref.Map{"p": 2})
	g2.AddEdge(d, c, "Y", ref.Map{"p": 1})
	g2.AddEdge(d, d, "X", nil)
	var out []reuseEnv
	add := func(g *ref.Graph, p, q ref.V, vars map[string]ref.V) {
		out = append(out, reuseEnv{g: g, vars: vars, params: map[string]ref.V{"p": p, "q": q, "m": ref.Map{"p": p}}})
	}
	add(g1, 1, 0, nil)
	add(g2, 2, 1, map[string]ref.V{"b": c})
	add(g1, 2, true, map[string]ref.V{"b": b})
	add(g2, 1, "x", nil)
	add(g0, 1, 1, nil)
	add(g2, 1, 2, map[string]ref.V{"k": 1, "x": 2})
	// No parameters
	out = append(out, reuseEnv{g: g1, vars: map[string]ref.V{"x": 1}})
	for i, e := range out {
		out[i].text = e.g.String() + envText(e.vars) + envText(e.params)
	}
	return out
}

func reuseTemplates() []ref.Query {
	var out []ref.Query
	P, Qp := ref.Param("p"), ref.Param("q")
	m := func(ps ...ref.Part) ref.Match { return ref.Match{Parts: ps} }
	where := func(x ref.Match, e ref.Expr) ref.Match { x.Where = e; return x }
	opt := func(x ref.Match) ref.Match { x.Optional = true; return x }
	ms := func(x ...ref.Match) []ref.Match { return x }
	pp := ref.MapX{{K: "p", E: P}}
	nN := func(v string, p ref.Expr, l ...string) ref.NodePat { return ref.NodePat{Var: v, Props: p, Labels: l} }
	R := func(v, t string) ref.RelPat { return ref.RelPat{Var: v, Types: []string{t}} }
	rp := func(x ref.RelPat, p ref.Expr) ref.RelPat { x.Props = p; return x }
	rr := func(x ref.RelPat, rng string) ref.RelPat { x.Rng = rng; return x }
	ret := func(items ...ref.Expr) *ref.Return {
		x := &ref.Return{}
		for i, e := range items {
			x.Items = append(x.Items, ref.Item{E: e, As: fmt.Sprint("c", i)})
		}
		return x
	}
	reads := [][]ref.Match{
		nil,
		ms(m(nodePart(nN("n", nil)))),
		ms(m(nodePart(nN("n", pp)))),
		ms(m(nodePart(nN("n", ref.Param("m"))))),
		ms(m(nodePart(nN("n", pp, "A")))),
		ms(m(nodePart(nN("n", ref.MapX{{K: "p", E: ref.Bin{Op: "+", A: lit(1), B: Qp}}})))),
		ms(where(m(nodePart(nN("n", nil))), cmp(prop("n", "p"), "=", P))),
		ms(where(m(nodePart(nN("n", nil, "A"))), cmp(prop("n", "p"), ">=", ref.Bin{Op: "+", A: lit(0), B: P}))),
		ms(where(m(nodePart(nN("n", nil))), ref.Bin{Op: "IN", A: prop("n", "p"), B: ref.ListX{P, lit(7)}})),
		ms(m(part(nP("n"), R("e", "X"), nP("b")))),
		ms(m(part(nP("n"), rp(R("e", "X"), pp), nP("b")))),
		ms(m(part(nP("n"), rp(ref.RelPat{Var: "e", Dir: ref.Both}, pp), nP("b", "B")))),
		ms(m(part(nP("n", "A"), rr(ref.RelPat{}, "*1..2"), nP("b")))),
		ms(m(part(nP("n"), rp(rr(R("", "X"), "*"), pp), nP("b")))),
		ms(m(nodePart(nP("n", "A")), nodePart(nN("b", pp)))),
		ms(m(nodePart(nP("n", "A"))), opt(m(part(nP("n"), R("e", "Y"), nN("b", pp))))),
		ms(opt(m(nodePart(nN("n", pp, "B"))))),
		ms(where(opt(m(part(nP("n"), R("e", "X"), nP("b")))), cmp(prop("e", "p"), "=", P))),
	}
	rets := []*ref.Return{
		ret(P, Qp),
		ret(ref.Var("n"), prop("n", "p")),
		ret(ref.ListX{prop("n", "p"), P}, ref.MapX{{K: "a", E: lit(1)}, {K: "b", E: prop("n", "q")}}),
		{Items: []ref.Item{{E: prop("n", "p"), As: "k"}, {E: ref.Var("n"), As: "n"}}, Order: []ref.SortItem{{E: ref.Var("k")}}},
		{Distinct: true, Items: []ref.Item{{E: ref.Bin{Op: "+", A: prop("n", "p"), B: P}, As: "k"}}},
		{Items: []ref.Item{{E: ref.Case{Test: prop("n", "p"), When: []ref.Expr{P}, Then: []ref.Expr{lit("same")}, Else: ref.Var("n")}, As: "k"}}},
		{Items: []ref.Item{{E: lit(1), As: "k"}}, Skip: Qp},
		{Items: []ref.Item{{E: lit(1), As: "k"}}, Limit: P},
		{Star: true},
		ret(ref.Var("b"), ref.Var("e")),
		ret(ref.Var("x"), ref.Var("k")),
	}
	for i, a := range reads {
		for j, b := range rets {
			if i == 0 && j > 0 && j < 6 || i == 0 && j > 7 && j < 10 || b.Star && i == 0 {
				continue
			}
			if j > 5 && i > 10 {
				continue
			}
			out = append(out, ref.Q(a, nil, b))
		}
	}
	set := func(items ...ref.SetItem) ref.Set { return ref.Set{Items: items} }
	sp := func(v, k string, e ref.Expr) ref.SetItem { return ref.SetItem{Kind: "prop", Var: v, Key: k, E: e} }
	retN := ret(ref.Var("n"), prop("n", "p"))
	upds := [][]ref.Update{
		{set(sp("n", "p", P))},
		{set(sp("n", "r", ref.ListX{prop("n", "p"), P, lit(1)}))},
		{set(ref.SetItem{Kind: "+=", Var: "n", E: ref.Param("m")})},
		{set(ref.SetItem{Kind: "=", Var: "n", E: ref.MapX{{K: "p", E: P}, {K: "z", E: lit(1)}}})},
		{set(ref.SetItem{Kind: "label", Var: "n", Labels: []string{"C"}}, sp("n", "p", ref.Bin{Op: "+", A: prop("n", "p"), B: lit(1)}))},
		{ref.Remove{Items: []ref.RemoveItem{{Var: "n", Key: "p"}, {Var: "n", Labels: []string{"A"}}}}},
		{ref.Create{Parts: []ref.Part{nodePart(nN("k", pp, "C"))}}},
		{ref.Create{Parts: []ref.Part{nodePart(nN("k", ref.Param("m"), "C"))}}},
		{ref.Create{Parts: []ref.Part{part(nP("n"), rp(R("", "Z"), ref.MapX{{K: "p", E: Qp}, {K: "z", E: prop("n", "p")}}), nP("", "C"))}}},
		{ref.Merge{Part: nodePart(nN("k", pp, "A"))}},
		{ref.Merge{Part: nodePart(nN("k", ref.MapX{{K: "p", E: prop("n", "p")}}, "C"))}},
		{ref.Merge{Part: part(nP("n"), rp(R("", "X"), pp), nN("k", nil, "B")), Acts: []ref.MergeAct{{OnCreate: true, Set: set(sp("k", "p", P))}, {Set: set(sp("k", "q", Qp))}}}},
		{ref.Delete{Exprs: []ref.Expr{ref.Var("n")}, Detach: true}},
		{ref.Delete{Exprs: []ref.Expr{ref.Var("n")}}},
		{set(sp("n", "p", ref.Bin{Op: "/", A: lit(4), B: Qp}))},
	}
	for i, a := range reads {
		if i > 12 || i == 7 || i == 8 {
			continue
		}
		for j, u := range upds {
			if i == 0 && j != 6 && j != 7 && j != 9 {
				continue
			}
			out = append(out, ref.Q(a, u, nil))
			if j < 6 && i > 0 {
				out = append(out, ref.Q(a, u, retN))
			}
		}
	}
	u1 := ref.Q(reads[2], nil, ret(prop("n", "p")))
	u2 := ref.Q(nil, nil, ret(P))
	for _, all := range []bool{false, true} {
		out = append(out, ref.Query{Singles: []ref.Single{u1.Singles[0], u2.Singles[0]}, All: []bool{all}})
		out = append(out, ref.Query{Singles: []ref.Single{u2.Singles[0], u1.Singles[0], u2.Singles[0]}, All: []bool{all, all}})
	}
	return out
}

// reuseOutcome evaluates a query in an environment
func reuseOutcome(w *mc.W, p oc.Evaluatable, q ref.Query, e reuseEnv) (text, fail string) {
	world := sut.Build(e.g, sut.BuildOpts{})
	ctx := oc.NewEvalContext(world.G)
	for k, v := range e.vars {
		ctx.SetVar(k, oc.RValue{Value: world.Native(v), Const: true})
	}
	for k, v := range e.params {
		ctx.SetParameter("$"+k, oc.RValue{Value: world.Native(v), Const: true})
	}
	out := world.Eval(p, ctx)
	w.R.Trace(1)
	if out.Panic != "" || out.Bad != "" {
		return "", "gives " + out.String()
	}
	snap, err := world.Snapshot()
	if err != nil {
		return "", "leaves an inconsistent graph: " + err.Error()
	}
	if out.Err != nil {
		// What a failing query leaves behind depends on the order of its
		// rows
		return "an error", reuseRef(w, q, e, out, snap)
	}
	fn, fe := e.g.Next()
	return ref.Canon(snap, out.Rows, false, fn, fe), reuseRef(w, q, e, out, snap)
}

func reuseRef(w *mc.W, q ref.Query, e reuseEnv, out sut.Outcome, snap *ref.Graph) string {
	opts := ref.Opts{Vars: e.vars, Params: e.params}
	exp := ref.Run(e.g, q, opts)
	updates := hasUpdates(q)
	fn, fe := e.g.Next()
	wantC := ""
	if exp.St == ref.OK {
		if updates {
			wantC = ref.Canon(exp.G, exp.Rows, false, fn, fe)
		} else {
			wantC = rowsText(exp.Rows, false)
		}
	}
	return compareOutcome(e.g, q, qopts{vars: e.vars, params: e.params}, exp, wantC, out, snap, fn, fe, opts, updates, w)
}

func reuseQueries(r *mc.Run) {
	envs := reuseQueryEnvs()
	qs := reuseTemplates()
	r.Note("query_templates", int64(len(qs)))
	r.Note("query_environments", int64(len(envs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		text := qs[i].Str()
		w.Case("query "+text, func() string {
			fresh := make([]string, len(envs))
			ps := make([]oc.Evaluatable, len(envs))
			for k, e := range envs {
				p, err := sut.SafeParse(text)
				if err != nil {
					return "does not parse: " + err.Error()
				}
				out, s := reuseOutcome(w, p, qs[i], e)
				w.R.Trans(1)
				if s != "" {
					return "on " + e.text + " " + s
				}
				fresh[k], ps[k] = out, p
				w.R.State(text + out)
			}
			for k, p := range ps {
				last := k
				for _, j := range pairSequence(len(envs), k) {
					out, s := reuseOutcome(w, p, qs[i], envs[j])
					if s != "" {
						return "after it was evaluated first on " + envs[k].text + " and last on " + envs[last].text + ": on " + envs[j].text + " " + s
					}
					if out != fresh[j] {
						// Is it the order of rows or elements?
						ok := false
						for n := 0; n < 8 && !ok; n++ {
							p, _ := sut.SafeParse(text)
							o, _ := reuseOutcome(w, p, qs[i], envs[j])
							ok = o == out
						}
						if !ok {
							return "after it was evaluated first on " + envs[k].text + " and last on " + envs[last].text + ": on " + envs[j].text + " gives\n    " + out + "\n  a fresh copy gives\n    " + fresh[j]
						}
					}
					last = j
				}
			}
			return ""
		})
	})
}

// reuseTexts store maps and lists of the query and of parameters, and
// change them
func reuseTexts() []string {
	return []string{
		"CREATE (n:A {m: {a: 1, b: {c: 1}}, l: [1, [2]]})",
		"MATCH (n:A) SET n.m.a = 2",
		"MATCH (n:A) SET n.m = {a: 1}, n.m.z = n.l",
		"MATCH (n:A) SET n.m = $m",
		"MATCH (n:A) SET n.m.k = $m",
		"MATCH (n:A) SET n += {m: {a: 3}} SET n.m.a = 4 RETURN n.m",
		"MATCH (n:A) SET n = $m SET n.p = 5",
		"MERGE (n:A {k: 1}) ON CREATE SET n.m = {a: 7} ON MATCH SET n.m.a = 8",
		"RETURN {a: 1, b: [1, 2]} AS x, $m AS y, [$m, {a: 1}] AS z",
		"MATCH (n:A) RETURN n.m, n.l",
		"MATCH (n:A) SET n.l = n.l + [3] RETURN n.l",
		"MATCH (n:A) REMOVE n.m.a",
		"CREATE (n:A $m) SET n.a = 9",
		"MATCH (n:A) SET n.m.b.c = 2",
		"MATCH (n:A) DETACH DELETE n",
		"MATCH (n:A) SET n.m = {a: 1} SET n.m.a = 1 / 0",
	}
}

func reuseHistories(r *mc.Run) {
	texts := reuseTexts()
	var hs [][]int
	n := len(texts)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			hs = append(hs, []int{a, b, a, b}, []int{a, a, b, a})
			for c := 0; c < n; c++ {
				if !r.Thorough {
					if (b == 1 || b == 3 || b == 4 || b == 13) && a != b && b != c && a != c {
						hs = append(hs, []int{a, b, c, a})
					}
				} else if a != b && b != c && a != c {
					hs = append(hs, []int{a, b, c, a}, []int{a, b, a, c}, []int{0, a, b, c, a}, []int{a, b, c, b})
				}
			}
		}
	}
	r.Note("histories", int64(len(hs)))
	param := func() map[string]oc.Value {
		inner := map[string]oc.Value{"a": oc.RValue{Value: 1, Const: true}}
		return map[string]oc.Value{"a": oc.RValue{Value: "v", Const: true}, "i": oc.RValue{Value: inner, Const: true}, "l": oc.RValue{Value: []oc.Value{oc.RValue{Value: 1}}, Const: true}}
	}
	r.Par(len(hs), func(w *mc.W, i int) {
		var key []string
		for _, k := range hs[i] {
			key = append(key, texts[k])
		}
		w.Case("history "+strings.Join(key, "; "), func() string {
			parsed := map[int]oc.Evaluatable{}
			reused, fresh := sut.NewWorld(), sut.NewWorld()
			shared := oc.RValue{Value: param(), Const: true}
			sharedText := ref.Key(reused.Model(shared.Value))
			run := func(w *sut.World, p oc.Evaluatable, m oc.Value) (string, string) {
				ctx := oc.NewEvalContext(w.G)
				ctx.SetParameter("$m", m)
				out := w.Eval(p, ctx)
				snap, err := w.Snapshot()
				if err != nil {
					return "", "inconsistent graph: " + err.Error()
				}
				o := out.String()
				if out.Err != nil {
					o = "an error"
				}
				return o, snap.String()
			}
			for step, k := range hs[i] {
				if parsed[k] == nil {
					p, err := sut.SafeParse(texts[k])
					if err != nil {
						return texts[k] + " does not parse: " + err.Error()
					}
					parsed[k] = p
				}
				p, ok := w.Data[texts[k]].(oc.Evaluatable)
				if !ok || !mapsOnce(texts[k]) {
					var err error
					if p, err = sut.SafeParse(texts[k]); err != nil {
						return err.Error()
					}
					w.Data[texts[k]] = p
				}
				o1, g1 := run(reused, parsed[k], shared)
				o2, g2 := run(fresh, p, oc.RValue{Value: param()})
				w.R.Trans(1)
				w.R.Trace(2)
				w.R.State(o2 + g2)
				if o1 != o2 || g1 != g2 {
					return fmt.Sprintf("step %d (%s) gives\n    %s\n    %s\n  fresh copies give\n    %s\n    %s", step+1, texts[k], o1, g1, o2, g2)
				}
				if now := ref.Key(reused.Model(shared.Value)); now != sharedText {
					return fmt.Sprintf("step %d (%s) changes the parameter to %s", step+1, texts[k], now)
				}
			}
			return ""
		})
	})
}

// mapsOnce tells if a copy of the query can be evaluated many times: it
// has no maps or lists that could be changed
func mapsOnce(text string) bool {
	return !strings.ContainsAny(text, "{[")
}

// reuseFunctions replaces a function between evaluations, and calls one
// that gives other results at every call
func reuseFunctions(r *mc.Run) {
	texts := []string{"RETURN swap(1) AS v", "RETURN swap(1) + 1 AS v", "RETURN [swap(1)] AS v", "RETURN {a: swap(1)} AS v", "RETURN -swap(1) AS v", "RETURN swap(1) = 1 AS v", "RETURN [1, 2, 3][swap(1)] AS v", "RETURN swap(swap(1)) AS v", "RETURN CASE swap(1) WHEN 1 THEN 1 ELSE 2 END AS v", "MATCH (n {p: swap(1)}) RETURN n.p AS v", "MATCH (n) WHERE n.p = swap(1) RETURN n.p AS v", "RETURN 1 AS v SKIP swap(0)", "RETURN 1 AS v LIMIT swap(1)", "MATCH (n) RETURN n.p AS v ORDER BY swap(1)"}
	def := func(min, max int, f func(args []oc.Value) (oc.Value, error)) oc.Function {
		return oc.Function{Name: "swap", MinArgs: min, MaxArgs: max, ValueFunc: func(_ *oc.EvalContext, args []oc.Value) (oc.Value, error) { return f(args) }}
	}
	fns := []oc.Function{
		def(1, 1, func(args []oc.Value) (oc.Value, error) { return args[0], nil }),
		def(0, -1, func(args []oc.Value) (oc.Value, error) { return oc.RValue{Value: 2, Const: true}, nil }),
		def(1, 1, func(args []oc.Value) (oc.Value, error) { return nil, fmt.Errorf("no") }),
		def(2, 2, func(args []oc.Value) (oc.Value, error) { return oc.RValue{Value: 1}, nil }),
		{Name: "swap", MinArgs: 1, MaxArgs: 1, Func: func(ctx *oc.EvalContext, args []oc.Evaluatable) (oc.Value, error) {
			v, err := args[0].Evaluate(ctx)
			if err != nil {
				return nil, err
			}
			return oc.RValue{Value: v.Get()}, nil
		}},
	}
	g := ref.NewGraph()
	g.AddNode(nil, ref.Map{"p": 1})
	g.AddNode(nil, ref.Map{"p": 2})
	world := sut.Build(g, sut.BuildOpts{})
	run := func(p oc.Evaluatable) string {
		out := world.Eval(p, oc.NewEvalContext(world.G))
		r.Trace(1)
		if out.Err != nil {
			return "an error"
		}
		return out.String()
	}
	r.Seq(func(w *mc.W) {
		for _, text := range texts {
			w.Case("functions "+text, func() string {
				fresh := make([]string, len(fns))
				for k, f := range fns {
					p, err := sut.SafeParse(text)
					if err != nil {
						return "does not parse: " + err.Error()
					}
					oc.RegisterGlobalFunc(f)
					fresh[k] = run(p)
					r.Trans(1)
					r.State(text + fresh[k])
				}
				for k := range fns {
					p, _ := sut.SafeParse(text)
					for _, j := range pairSequence(len(fns), k) {
						oc.RegisterGlobalFunc(fns[j])
						if got := run(p); got != fresh[j] {
							return fmt.Sprintf("with function %d gives %s, a fresh copy gives %s", j, got, fresh[j])
						}
					}
				}
				return ""
			})
		}
		for _, text := range []string{"tick($t)", "tick($t) + 0", "-(-tick($t))", "[tick($t)][0]", "CASE WHEN true THEN tick($t) END", "ident(tick($t))", "(tick($t))", "tick($t) * 1 + 0", "CASE tick($t) WHEN 0 THEN 1 ELSE tick($t) - 1 END"} {
			text := text
			w.Case("counter "+text, func() string {
				p, err := sut.SafeParse("MATCH (n) RETURN " + text + " AS v")
				if err != nil {
					return "does not parse: " + err.Error()
				}
				n := 0
				twice := strings.Count(text, "tick") == 2
				for i := 0; i < 6; i += 2 {
					ctx := oc.NewEvalContext(world.G)
					ctx.SetParameter("$t", oc.RValue{Value: &n, Const: true})
					want := fmt.Sprintf(`rows: [{"v":i%d}, {"v":i%d}]`, i+1, i+2)
					if twice {
						want = fmt.Sprintf(`rows: [{"v":i%d}, {"v":i%d}]`, 2*i+1, 2*i+3)
					}
					r.Trace(1)
					r.Trans(1)
					if got := world.Eval(p, ctx).String(); got != want {
						return fmt.Sprintf("evaluation %d gives %s, expected %s", i/2+1, got, want)
					}
				}
				return ""
			})
		}
	})
}
