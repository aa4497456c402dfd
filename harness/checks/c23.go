package checks

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C23", Level: "model_checking",
		Bounds: "a function that fails at its k-th call, for all k, at every operand position of every construct, in every position of a query where there is an expression, and constructs nested in each other; every kind of failing expression in place of it; all pairs of operand kinds for the constructs with two operands; functions with all bounds of arguments up to 3 and all numbers of arguments up to 4" + sizeBounds,
		Assume: []string{"functions return a value or an error"},
		Fn:     runC23,
	})
	logged := func(ctx *oc.EvalContext, args []oc.Value) (oc.Value, error) {
		p, err := ctx.GetParameter("$log")
		if err != nil {
			return args[1], nil
		}
		return p.Get().(*callLog).call(args)
	}
	oc.RegisterGlobalFunc(
		oc.Function{Name: "t", MinArgs: 2, MaxArgs: 2, ValueFunc: logged},
		oc.Function{Name: "my.t", MinArgs: 2, MaxArgs: 2, Func: func(ctx *oc.EvalContext, args []oc.Evaluatable) (oc.Value, error) {
			var vals []oc.Value
			for _, a := range args {
				v, err := a.Evaluate(ctx)
				if err != nil {
					return nil, err
				}
				vals = append(vals, v)
			}
			return logged(ctx, vals)
		}},
	)
	ref.Custom["t"] = func(args []ref.V) (ref.V, ref.St) {
		if len(args) != 2 {
			return nil, ref.ERR
		}
		return args[1], ref.OK
	}
	ref.Custom["my.t"] = ref.Custom["t"]
}

// callLog records the calls of t and makes one fail
type callLog struct {
	w      *sut.World
	calls  []string
	failAt int
	err    error
}

func (l *callLog) call(args []oc.Value) (oc.Value, error) {
	l.calls = append(l.calls, fmt.Sprint(args[0].Get())+"="+ref.Key(l.w.Model(args[1].Get())))
	if len(l.calls) == l.failAt {
		l.err = fmt.Errorf("injected failure of call %d", l.failAt)
		return nil, l.err
	}
	return oc.RValue{Value: args[1].Get(), Const: true}, nil
}

func (l *callLog) sorted() string {
	c := append([]string{}, l.calls...)
	sort.Strings(c)
	return strings.Join(c, " ")
}

func tCall(i int, e ref.Expr) ref.Expr {
	f := "t"
	if i%2 == 1 {
		f = "my.t"
	}
	return ref.Call{F: f, Args: []ref.Expr{lit(pnames[i]), e}}
}

// position is a place in a query for an expression
type position struct {
	mk func(e ref.Expr) ref.Query
	// calls is the number of calls if the expression is a call: -1 is
	// not specified
	calls int
}

func failGraph() *ref.Graph {
	g := ref.NewGraph()
	a := g.AddNode([]string{"A"}, ref.Map{"p": 1})
	b := g.AddNode([]string{"B"}, ref.Map{"p": 2})
	c := g.AddNode([]string{"C"}, ref.Map{"p": 3})
	g.AddEdge(a, b, "X", ref.Map{"p": 1})
	g.AddEdge(b, c, "X", ref.Map{"p": 2})
	g.AddEdge(a, c, "Y", ref.Map{"p": 1})
	return g
}

func positions() []position {
	var out []position
	add := func(calls int, mk func(e ref.Expr) ref.Query) { out = append(out, position{mk, calls}) }
	m := func(ps ...ref.Part) ref.Match { return ref.Match{Parts: ps} }
	n := nodePart(nP("n"))
	pm := func(e ref.Expr) ref.MapX { return ref.MapX{{K: "p", E: e}} }
	np := func(v string, e ref.Expr, l ...string) ref.NodePat {
		return ref.NodePat{Var: v, Labels: l, Props: pm(e)}
	}
	ret := func(es ...ref.Expr) *ref.Return {
		x := &ref.Return{}
		for i, e := range es {
			x.Items = append(x.Items, ref.Item{E: e, As: fmt.Sprint("c", i)})
		}
		return x
	}
	ms := func(x ...ref.Match) []ref.Match { return x }
	us := func(x ...ref.Update) []ref.Update { return x }
	where := func(x ref.Match, e ref.Expr) ref.Match { x.Where = e; return x }
	opt := func(x ref.Match) ref.Match { x.Optional = true; return x }
	notNull := func(e ref.Expr) ref.Expr { return ref.IsNull{E: e, Not: true} }
	count := func(e ref.Expr) ref.Expr { return ref.Call{F: "size", Args: []ref.Expr{ref.ListX{e}}} }
	R := func(v, t string) ref.RelPat { return ref.RelPat{Var: v, Types: []string{t}} }
	RP := func(v, t, rng string, e ref.Expr) ref.RelPat {
		return ref.RelPat{Var: v, Types: []string{t}, Rng: rng, Props: pm(e)}
	}
	v := func(s string) ref.Expr { return ref.Var(s) }
	set := func(items ...ref.SetItem) ref.Set { return ref.Set{Items: items} }
	sp := func(v, k string, e ref.Expr) ref.SetItem { return ref.SetItem{Kind: "prop", Var: v, Key: k, E: e} }
	// Projection
	add(1, func(e ref.Expr) ref.Query { return ref.Q(nil, nil, ret(e)) })
	add(1, func(e ref.Expr) ref.Query { return ref.Q(nil, nil, ret(lit(1), e, lit(2))) })
	add(3, func(e ref.Expr) ref.Query { return ref.Q(ms(m(n)), nil, ret(v("n"), e)) })
	add(3, func(e ref.Expr) ref.Query { r := ret(e); r.Distinct = true; return ref.Q(ms(m(n)), nil, r) })
	add(3, func(e ref.Expr) ref.Query {
		r := ret(prop("n", "p"))
		r.Order = []ref.SortItem{{E: e}}
		return ref.Q(ms(m(n)), nil, r)
	})
	add(3, func(e ref.Expr) ref.Query {
		r := ret(prop("n", "p"))
		r.Order = []ref.SortItem{{E: lit(1)}, {E: e, Desc: true}}
		r.Limit = lit(1)
		return ref.Q(ms(m(n)), nil, r)
	})
	add(1, func(e ref.Expr) ref.Query { r := ret(lit(1)); r.Skip = count(e); return ref.Q(ms(m(n)), nil, r) })
	add(1, func(e ref.Expr) ref.Query { r := ret(lit(1)); r.Limit = count(e); return ref.Q(ms(m(n)), nil, r) })
	add(1, func(e ref.Expr) ref.Query { r := ret(lit(1)); r.Limit = count(e); return ref.Q(nil, nil, r) })
	add(3, func(e ref.Expr) ref.Query { return ref.Q(ms(opt(m(n))), nil, ret(e)) })
	// WHERE
	add(3, func(e ref.Expr) ref.Query { return ref.Q(ms(where(m(n), notNull(e))), nil, ret(v("n"))) })
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(where(m(n), ref.Not{E: notNull(e)})), nil, ret(v("n")))
	})
	add(3, func(e ref.Expr) ref.Query { return ref.Q(ms(where(opt(m(n)), notNull(e))), nil, ret(v("n"))) })
	add(2, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n), where(m(part(nP("n"), R("e", "X"), nP("b"))), notNull(e))), nil, ret(v("n"), v("b")))
	})
	add(2, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n), where(opt(m(part(nP("n"), R("e", "X"), nP("b")))), notNull(e))), nil, ret(v("n"), v("b")))
	})
	// Several patterns
	b := nodePart(nP("b"))
	add(9, func(e ref.Expr) ref.Query { return ref.Q(ms(where(m(n, b), notNull(e))), nil, ret(v("n"), v("b"))) })
	add(9, func(e ref.Expr) ref.Query { return ref.Q(ms(where(opt(m(n, b)), notNull(e))), nil, ret(v("n"))) })
	add(2, func(e ref.Expr) ref.Query {
		return ref.Q(ms(where(m(n, part(nP("n"), R("e", "X"), nP("b"))), notNull(e))), nil, ret(v("n"), v("b")))
	})
	add(27, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n), where(m(b, nodePart(nP("c"))), notNull(e))), us(set(sp("b", "q", lit(1)))), nil)
	})
	// Patterns
	add(-1, func(e ref.Expr) ref.Query { return ref.Q(ms(m(nodePart(np("n", e)))), nil, ret(v("n"))) })
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(nodePart(ref.NodePat{Var: "n", Props: ref.MapX{{K: "p", E: lit(1)}, {K: "q", E: e}}}))), nil, ret(v("n")))
	})
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(part(nP("n"), RP("e", "X", "", e), nP("b")))), nil, ret(v("n")))
	})
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(part(nP("n"), R("", "X"), np("b", e)))), nil, ret(v("n")))
	})
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(part(nP("n"), RP("", "X", "*1..2", e), nP("b")))), nil, ret(v("n")))
	})
	add(-1, func(e ref.Expr) ref.Query { return ref.Q(ms(m(n, nodePart(np("b", e)))), nil, ret(v("n"), v("b"))) })
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n), m(nodePart(np("b", e)))), nil, ret(v("n"), v("b")))
	})
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n), opt(m(part(nP("n"), RP("e", "X", "", e), nP("b"))))), nil, ret(v("n"), v("b")))
	})
	add(-1, func(e ref.Expr) ref.Query { return ref.Q(ms(opt(m(nodePart(np("n", e))))), nil, ret(v("n"))) })
	// Updates
	add(1, func(e ref.Expr) ref.Query {
		return ref.Q(nil, us(ref.Create{Parts: []ref.Part{nodePart(np("k", e))}}), ret(prop("k", "p")))
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Create{Parts: []ref.Part{nodePart(np("k", e, "K"))}}), nil)
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Create{Parts: []ref.Part{part(nP("n"), RP("", "Z", "", e), nP("k"))}}), nil)
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Create{Parts: []ref.Part{part(nP("n"), R("", "Z"), np("k", e))}}), ret(v("k")))
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Create{Parts: []ref.Part{nodePart(nP("k")), nodePart(np("l", e))}}), nil)
	})
	add(-1, func(e ref.Expr) ref.Query { return ref.Q(nil, us(ref.Merge{Part: nodePart(np("k", e))}), ret(v("k"))) })
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Merge{Part: nodePart(np("k", e, "K"))}), nil)
	})
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Merge{Part: part(nP("n"), RP("", "X", "", e), nP("k"))}), nil)
	})
	add(-1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Merge{Part: part(nP("n"), R("", "X"), np("k", e, "B"))}), ret(v("k")))
	})
	// The pattern is there for one node and is created for two
	add(2, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Merge{Part: part(nP("n"), R("", "Y"), nP("k", "C")), Acts: []ref.MergeAct{{OnCreate: true, Set: set(sp("k", "q", e))}, {Set: set(sp("k", "q", lit(0)))}}}), nil)
	})
	add(1, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Merge{Part: part(nP("n"), R("", "Y"), nP("k", "C")), Acts: []ref.MergeAct{{OnCreate: true, Set: set(sp("k", "q", lit(0)))}, {Set: set(sp("k", "q", e))}}}), nil)
	})
	add(3, func(e ref.Expr) ref.Query { return ref.Q(ms(m(n)), us(set(sp("n", "q", e))), nil) })
	add(3, func(e ref.Expr) ref.Query { return ref.Q(ms(m(n)), us(set(sp("n", "q", e))), ret(prop("n", "q"))) })
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(set(ref.SetItem{Kind: "+=", Var: "n", E: ref.MapX{{K: "q", E: e}}})), nil)
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(set(ref.SetItem{Kind: "=", Var: "n", E: ref.MapX{{K: "q", E: e}}})), nil)
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(set(ref.SetItem{Kind: "label", Var: "n", Labels: []string{"L"}}, sp("n", "q", e))), nil)
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(set(sp("n", "q", lit(1))), set(sp("n", "r", e))), nil)
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Remove{Items: []ref.RemoveItem{{Var: "n", Key: "p"}}}, set(sp("n", "r", e))), ret(v("n")))
	})
	add(3, func(e ref.Expr) ref.Query { return ref.Q(ms(m(n)), us(set(sp("n", "q", lit(1)))), ret(e)) })
	add(1, func(e ref.Expr) ref.Query {
		return ref.Q(nil, us(ref.Create{Parts: []ref.Part{nodePart(nP("k"))}}), ret(e))
	})
	add(1, func(e ref.Expr) ref.Query {
		return ref.Q(nil, us(ref.Create{Parts: []ref.Part{nodePart(nP("k"))}}, set(sp("k", "q", e))), nil)
	})
	add(3, func(e ref.Expr) ref.Query {
		return ref.Q(ms(m(n)), us(ref.Delete{Detach: true, Exprs: []ref.Expr{v("n")}}), ret(e))
	})
	// UNION
	one := ref.Q(nil, nil, ret(lit(1)))
	for _, all := range []bool{false, true} {
		all := all
		add(1, func(e ref.Expr) ref.Query {
			q := ref.Q(nil, nil, ret(e))
			return ref.Query{Singles: []ref.Single{q.Singles[0], one.Singles[0]}, All: []bool{all}}
		})
		add(3, func(e ref.Expr) ref.Query {
			q := ref.Q(ms(m(n)), nil, ret(e))
			return ref.Query{Singles: []ref.Single{one.Singles[0], q.Singles[0]}, All: []bool{all}}
		})
		add(3, func(e ref.Expr) ref.Query {
			q := ref.Q(ms(where(m(n), notNull(e))), nil, ret(lit(2)))
			return ref.Query{Singles: []ref.Single{one.Singles[0], one.Singles[0], q.Singles[0]}, All: []bool{all, all}}
		})
	}
	return out
}

// lazy tells if operands of an expression need not be evaluated
func lazy(text string) bool {
	for _, s := range []string{" AND ", " OR ", "CASE ", "null", " IN ", "..", "<", "="} {
		if strings.Contains(text, s) {
			return true
		}
	}
	return false
}

// failing are expressions that are errors
func failing() []ref.Expr {
	return []ref.Expr{
		ref.Bin{Op: "/", A: lit(1), B: lit(0)},
		ref.Bin{Op: "%", A: lit(1), B: lit(0)},
		ref.Var("nosuch"),
		ref.Prop{E: ref.Var("nosuch"), K: "p"},
		ref.Param("nosuch"),
		ref.Call{F: "nosuch", Args: []ref.Expr{lit(1)}},
		ref.Call{F: "t", Args: []ref.Expr{lit(1)}},
		ref.Neg{E: lit("s")},
		ref.Not{E: lit(1)},
		ref.Bin{Op: "-", A: lit("s"), B: lit(1)},
		ref.Bin{Op: "AND", A: lit(true), B: lit(1)},
		ref.Bin{Op: "XOR", A: lit(true), B: lit("s")},
		ref.Call{F: "toInteger", Args: []ref.Expr{lit("s")}},
		ref.ListX{lit(1), ref.Var("nosuch")},
		ref.MapX{{K: "a", E: lit(1)}, {K: "b", E: ref.Param("nosuch")}},
		ref.Index{E: lit(1), I: lit(0)},
		ref.Case{When: []ref.Expr{lit(true)}, Then: []ref.Expr{ref.Var("nosuch")}},
		ref.Case{When: []ref.Expr{ref.Var("nosuch")}, Then: []ref.Expr{lit(1)}},
	}
}

func runC23(r *mc.Run) {
	sizesC23(r)
	failingCalls(r)
	failingExpressions(r)
	operandKinds(r)
	functionArity(r)
}

// workingEnv finds values for the operands that make a construct succeed
func workingEnv(c construct) ([]ref.V, bool) {
	dom := []ref.V{1, 2, true, false, "abc", "b", ref.List{1, 2, 3}, 1.5}
	var found []ref.V
	product(c.n, dom, func(vals []ref.V) bool {
		h := make([]ref.Expr, c.n)
		for i, v := range vals {
			h[i] = lit(v)
		}
		v, st := c.mk(h).Eval(&ref.Env{})
		if st == ref.OK && v != nil {
			found = append([]ref.V{}, vals...)
			return false
		}
		return true
	})
	return found, found != nil
}

type failQuery struct {
	q     ref.Query
	calls int
}

func failQueries(thorough bool, lim func(string) bool) []failQuery {
	var out []failQuery
	pos := positions()
	cs := constructs()
	seen := map[string]bool{}
	add := func(q ref.Query, calls int) {
		t := q.Str()
		if seen[t] || !lim(t) {
			return
		}
		seen[t] = true
		out = append(out, failQuery{q, calls})
	}
	for _, p := range pos {
		add(p.mk(tCall(0, lit(1))), p.calls)
		add(p.mk(tCall(1, lit("s"))), p.calls)
		add(p.mk(ref.Call{F: "ident", Args: []ref.Expr{tCall(0, lit(2))}}), p.calls)
		if strings.Contains(p.mk(lit(1)).Str(), "MATCH (n)") {
			q := p.mk(tCall(0, prop("n", "p")))
			add(q, p.calls)
		}
	}
	with := func(c construct, vals []ref.V, from int) ref.Expr {
		h := make([]ref.Expr, c.n)
		for i := range h {
			h[i] = tCall(from+i, lit(vals[i]))
		}
		return c.mk(h)
	}
	for ci, c := range cs {
		vals, ok := workingEnv(c)
		if !ok {
			continue
		}
		e := with(c, vals, 0)
		for pi, p := range pos {
			if !thorough && c.n == 3 && pi%4 != 0 {
				continue
			}
			calls := -1
			if p.calls >= 0 && !lazy(e.Str()) {
				calls = p.calls * strings.Count(e.Str(), "t('")
			}
			add(p.mk(e), calls)
		}
		// Nested
		if c.n != 1 && !thorough {
			continue
		}
		for di, d := range cs {
			dv, ok := workingEnv(d)
			if !ok || c.n+d.n > 4 {
				continue
			}
			h := []ref.Expr{with(d, dv, 1)}
			for i := 1; i < c.n; i++ {
				h = append(h, tCall(3+i, lit(vals[i])))
			}
			add(ref.Q(nil, nil, &ref.Return{Items: []ref.Item{{E: c.mk(h), As: "v"}}}), -1)
			_, _ = ci, di
		}
	}
	return out
}

func failingCalls(r *mc.Run) {
	g := failGraph()
	qs := failQueries(r.Thorough, func(string) bool { return true })
	r.Note("queries_with_a_failing_function", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		fq := qs[i]
		text := fq.q.Str()
		w.Case("call "+text, func() string {
			p, err := sut.SafeParse(text)
			if err != nil {
				return "does not parse: " + err.Error()
			}
			updates := hasUpdates(fq.q)
			opts := ref.Opts{}
			run := func(failAt int) (sut.Outcome, *ref.Graph, *callLog, *sut.World, *oc.EvalContext, string) {
				world := sut.Build(g, sut.BuildOpts{})
				l := &callLog{w: world, failAt: failAt}
				ctx := oc.NewEvalContext(world.G)
				ctx.SetParameter("$log", oc.RValue{Value: l})
				out := world.Eval(p, ctx)
				w.R.Trace(1)
				if out.Panic != "" || out.Bad != "" {
					return out, nil, l, world, ctx, "gives " + out.String()
				}
				snap, err := world.Snapshot()
				if err != nil {
					return out, nil, l, world, ctx, "leaves an inconsistent graph: " + err.Error()
				}
				return out, snap, l, world, ctx, ""
			}
			base, snap, log, _, _, bad := run(0)
			if bad != "" {
				return bad
			}
			exp := ref.Run(g, fq.q, opts)
			fn, fe := g.Next()
			wantC := ""
			if exp.St == ref.OK {
				if updates {
					wantC = ref.Canon(exp.G, exp.Rows, false, fn, fe)
				} else {
					wantC = rowsText(exp.Rows, false)
				}
			}
			if s := compareOutcome(g, fq.q, qopts{}, exp, wantC, base, snap, fn, fe, opts, updates, w); s != "" {
				return "without failures: " + s
			}
			if exp.St == ref.UNSPEC {
				w.R.Unspec()
			}
			if fq.calls >= 0 && len(log.calls) != fq.calls && base.Err == nil {
				return fmt.Sprintf("calls the function %d times (%v), expected %d", len(log.calls), log.calls, fq.calls)
			}
			if base.Err == nil && len(log.calls) == 0 {
				return "does not call the function"
			}
			w.R.State(text)
			canon := func(o sut.Outcome, s *ref.Graph) string {
				if o.Err != nil {
					return "an error"
				}
				return ref.Canon(s, o.Rows, false, fn, fe)
			}
			want := canon(base, snap)
			for k := 1; k <= len(log.calls); k++ {
				w.R.Trans(1)
				out, _, l, world, ctx, bad := run(k)
				if bad != "" {
					return fmt.Sprintf("if call %d fails: %s", k, bad)
				}
				w.R.ErrOutcome()
				if out.Err == nil {
					return fmt.Sprintf("if call %d (%s) fails: gives %s, expected the error of the function", k, l.calls[k-1], out)
				}
				if base.Err == nil && !errors.Is(out.Err, l.err) && !strings.Contains(out.Err.Error(), l.err.Error()) {
					return fmt.Sprintf("if call %d (%s) fails: gives error '%v', expected the error of the function", k, l.calls[k-1], out.Err)
				}
				if !updates {
					// The same context again
					l.failAt, l.calls = 0, nil
					again := world.Eval(p, ctx)
					w.R.Trace(1)
					s, err := world.Snapshot()
					if err != nil {
						return err.Error()
					}
					if c := canon(again, s); c != want {
						return fmt.Sprintf("after call %d failed, gives\n    %s\n  in the same context, expected\n    %s", k, c, want)
					}
					if base.Err == nil && l.sorted() != log.sorted() {
						return fmt.Sprintf("after call %d failed, calls the function as %s in the same context, expected %s", k, l.sorted(), log.sorted())
					}
				}
				out, s, l, _, _, bad := run(0)
				if bad != "" {
					return fmt.Sprintf("after call %d failed: %s", k, bad)
				}
				if c := canon(out, s); c != want {
					return fmt.Sprintf("after call %d failed, gives\n    %s\n  expected\n    %s", k, c, want)
				}
				if base.Err == nil && l.sorted() != log.sorted() {
					return fmt.Sprintf("after call %d failed, calls the function as %s, expected %s", k, l.sorted(), log.sorted())
				}
			}
			return ""
		})
	})
}

// failingExpressions puts failing expressions in all positions
func failingExpressions(r *mc.Run) {
	g := failGraph()
	var qs []ref.Query
	seen := map[string]bool{}
	add := func(q ref.Query) {
		if t := q.Str(); !seen[t] {
			seen[t] = true
			qs = append(qs, q)
		}
	}
	pos := positions()
	fs := failing()
	for _, p := range pos {
		for _, f := range fs {
			add(p.mk(f))
		}
	}
	for _, c := range constructs() {
		vals, ok := workingEnv(c)
		if !ok {
			continue
		}
		for i := 0; i < c.n; i++ {
			for fi, f := range fs {
				if c.n == 3 && fi%3 != 0 && !r.Thorough {
					continue
				}
				h := make([]ref.Expr, c.n)
				for k := range h {
					h[k] = lit(vals[k])
				}
				h[i] = f
				e := c.mk(h)
				add(ref.Q(nil, nil, &ref.Return{Items: []ref.Item{{E: e, As: "v"}}}))
				if fi%6 == 2 || r.Thorough {
					for pi, p := range pos {
						if r.Thorough || pi%5 == 3 {
							add(p.mk(e))
						}
					}
				}
			}
		}
	}
	r.Note("queries_with_a_failing_expression", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		text := qs[i].Str()
		w.Case("failing "+text, func() string {
			p, err := sut.SafeParse(text)
			if err != nil {
				return "does not parse: " + err.Error()
			}
			return queryCase(w, p, g, qs[i], qopts{})
		})
	})
}

// operandKinds evaluates the constructs with operands of all kinds
func operandKinds(r *mc.Run) {
	dom := []ref.V{nil, true, false, 0, 1, -2, 1.5, "", "a", ref.List{}, ref.List{1, "a"}, ref.Map{}, ref.Map{"a": 1}, ref.Date{Y: 2020, M: 2, D: 29}}
	cs := constructs()
	r.Note("constructs", int64(len(cs)))
	r.Par(len(cs), func(w *mc.W, i int) {
		c := cs[i]
		h := make([]ref.Expr, c.n)
		for k := range h {
			h[k] = ref.Param(pnames[k])
		}
		d := dom
		if c.n == 3 && !r.Thorough {
			d = []ref.V{nil, true, 0, 1, 1.5, "a", ref.List{1, "a"}, ref.Map{"a": 1}}
		}
		checkShape(w, c.mk(h), c.n, d, nil)
	})
}

// functionArity calls functions with all numbers of arguments
func functionArity(r *mc.Run) {
	r.Seq(func(w *mc.W) {
		world := sut.NewWorld()
		for min := 0; min <= 3; min++ {
			for max := -1; max <= 3; max++ {
				if max >= 0 && max < min {
					continue
				}
				for kind := 0; kind < 2; kind++ {
					var calls []string
					name := fmt.Sprintf("arity.f%d", kind)
					f := oc.Function{Name: name, MinArgs: min, MaxArgs: max}
					if kind == 0 {
						f.ValueFunc = func(_ *oc.EvalContext, args []oc.Value) (oc.Value, error) {
							var l ref.List
							for _, a := range args {
								l = append(l, world.Model(a.Get()))
							}
							calls = append(calls, ref.Key(append(ref.List{}, l...)))
							return oc.RValue{Value: len(args)}, nil
						}
					} else {
						f.Func = func(ctx *oc.EvalContext, args []oc.Evaluatable) (oc.Value, error) {
							var l ref.List
							for _, a := range args {
								v, err := a.Evaluate(ctx)
								if err != nil {
									return nil, err
								}
								l = append(l, world.Model(v.Get()))
							}
							calls = append(calls, ref.Key(append(ref.List{}, l...)))
							return oc.RValue{Value: len(args)}, nil
						}
					}
					oc.RegisterGlobalFunc(f)
					for n := 0; n <= 4; n++ {
						args := []string{"1 + 1", "'a'", "null", "[1]"}[:n]
						vals := append(ref.List{}, ref.List{2, "a", nil, ref.List{1}}[:n]...)
						text := "RETURN " + name + "(" + strings.Join(args, ", ") + ")"
						w.Case(fmt.Sprintf("arity %s with %d to %d arguments", text, min, max), func() string {
							calls = nil
							q, err := sut.SafeParse(text)
							if err != nil {
								return "does not parse: " + err.Error()
							}
							v, gerr, bad := evalExpr(world, q, oc.NewEvalContext(world.G))
							r.Trans(1)
							r.Trace(1)
							if bad != "" {
								return bad
							}
							if n < min || max >= 0 && n > max {
								if gerr == nil {
									return "gives " + ref.Key(v) + ", expected an error"
								}
								if len(calls) != 0 {
									return "calls the function"
								}
								return ""
							}
							if gerr != nil {
								return "gives error " + gerr.Error()
							}
							if len(calls) != 1 || calls[0] != ref.Key(vals) {
								return fmt.Sprintf("calls the function with %v, expected once with %s", calls, ref.Key(vals))
							}
							if ref.Key(v) != ref.Key(n) {
								return "gives " + ref.Key(v)
							}
							return ""
						})
					}
				}
			}
		}
	})
}
