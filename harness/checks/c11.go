package checks

import (
	"fmt"
	"strings"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C11", Level: "model_checking",
		Bounds: "all combinations of the projection, DISTINCT, ORDER BY, SKIP and LIMIT alphabets, on all sequences of up to 4 (thorough 5) nodes over the property alphabets; pairs of nodes, relationships and paths; rows without a MATCH" + sizeBounds + objectBounds,
		Assume: []string{"the order of the rows before ORDER BY is the one the same MATCH gives with RETURN of its variables", "ORDER BY keys of one column are comparable; with DISTINCT the keys are columns; SKIP and LIMIT are not negative"},
		Fn:     runC11,
	})
}

// baseWorld is a graph that is built once for queries that only read
type baseWorld struct {
	g     *ref.Graph
	world *sut.World
	rows  map[string][]ref.Row
}

// worlds gives the worker's own copies of the graphs
func worlds(w *mc.W, name string, gs []*ref.Graph) []*baseWorld {
	if x, ok := w.Data[name]; ok {
		return x.([]*baseWorld)
	}
	var out []*baseWorld
	for i, g := range gs {
		out = append(out, &baseWorld{g: g, world: sut.Build(g, sut.BuildOpts{Wrap: i%3 == 2}), rows: map[string][]ref.Row{}})
	}
	w.Data[name] = out
	return out
}

// base gives the rows of MATCH clauses, in order
func (b *baseWorld) base(w *mc.W, reads []ref.Match, opts ref.Opts) ([]ref.Row, string) {
	var ms []string
	for _, m := range reads {
		ms = append(ms, m.Str())
	}
	key := strings.Join(ms, " ")
	if r, ok := b.rows[key]; ok {
		return r, ""
	}
	q := ref.Q(reads, nil, varsReturn(allParts(reads)...))
	p, err := w.Cache.Parse(q.Str())
	if err != nil {
		return nil, err.Error()
	}
	out := b.world.Eval(p, b.world.Ctx(opts.Vars, opts.Params))
	if out.Err != nil || out.Panic != "" {
		return nil, q.Str() + " gives " + out.String()
	}
	exp := ref.Run(b.g, q, opts)
	if rowsText(exp.Rows, false) != rowsText(out.Rows, false) {
		return nil, q.Str() + " gives " + out.String() + ", expected " + rowsText(exp.Rows, false)
	}
	b.rows[key] = out.Rows
	return out.Rows, ""
}

// runReturn checks a RETURN after MATCH clauses on all graphs
func runReturn(w *mc.W, family string, gs []*ref.Graph, reads []ref.Match, ret ref.Return, opts ref.Opts) {
	q := ref.Q(reads, nil, &ret)
	text := q.Str()
	w.Case(text+envText(opts.Params)+" on "+family, func() string {
		p, err := w.Cache.Parse(text)
		if err != nil {
			return "does not parse: " + err.Error()
		}
		defer w.Cache.Forget(text)
		for _, b := range worlds(w, family, gs) {
			w.Tick()
			rows := []ref.Row{{}}
			if len(reads) > 0 {
				r, s := b.base(w, reads, opts)
				if s != "" {
					return s + " on " + b.g.String()
				}
				rows = r
			}
			want, cols, st := ref.Project(b.g, ret, rows, opts)
			wt := rowsText(want, true)
			w.R.Trans(1)
			w.R.State(b.g.Text() + wt)
			for round := 0; round < 2; round++ {
				out := b.world.Eval(p, b.world.Ctx(opts.Vars, opts.Params))
				w.R.Trace(1)
				if out.Panic != "" || out.Bad != "" {
					return "on " + b.g.String() + " gives " + out.String()
				}
				switch st {
				case ref.ERR:
					w.R.ErrOutcome()
					if out.Err == nil {
						return "on " + b.g.String() + " gives " + out.String() + ", expected an error"
					}
					continue
				case ref.UNSPEC:
					w.R.Unspec()
					continue
				}
				if out.Err != nil {
					return "on " + b.g.String() + " gives error " + out.Err.Error() + ", expected " + wt
				}
				if got := rowsText(out.Rows, true); got != wt {
					return fmt.Sprintf("on %s gives\n    %s\n  expected\n    %s\n  for the rows\n    %s", b.g, got, wt, rowsText(rows, true))
				}
				if !ret.Star && strings.Join(out.Cols, "\x00") != strings.Join(cols, "\x00") {
					return fmt.Sprintf("has columns %q, expected %q", out.Cols, cols)
				}
			}
		}
		w.R.Sample(func() string { return text })
		return ""
	})
}

// nodeSequences gives all graphs of up to n nodes of the given kinds, in
// all orders
func nodeSequences(nmin, nmax int, kinds []nodeKind) []*ref.Graph {
	var out []*ref.Graph
	var rec func(ks []int)
	rec = func(ks []int) {
		if len(ks) >= nmin {
			g := ref.NewGraph()
			for _, k := range ks {
				g.AddNode(kinds[k].labels, cloneProps(kinds[k].props))
			}
			out = append(out, g)
		}
		if len(ks) == nmax {
			return
		}
		for k := range kinds {
			rec(append(ks[:len(ks):len(ks)], k))
		}
	}
	rec(nil)
	return out
}

func runC11(r *mc.Run) {
	sizesC11(r)
	item := func(e ref.Expr, as string) ref.Item { return ref.Item{E: e, As: as} }
	np, nq := prop("n", "p"), prop("n", "q")
	plus := func(a, b ref.Expr) ref.Expr { return ref.Bin{Op: "+", A: a, B: b} }
	projections := []ref.Return{
		{Items: []ref.Item{item(np, "x")}},
		{Items: []ref.Item{item(np, "x"), item(nq, "y")}},
		{Items: []ref.Item{item(np, "")}},
		{Items: []ref.Item{item(nq, ""), item(np, "x"), item(ref.Var("n"), "")}},
		{Star: true},
		{Star: true, Items: []ref.Item{item(np, "x")}},
		{Items: []ref.Item{item(ref.Var("n"), "m"), item(plus(np, lit(1)), "x")}},
		{Items: []ref.Item{item(lit(1), "one"), item(ref.ListX{np, nq}, "l")}},
		{Items: []ref.Item{item(ref.MapX{{K: "k", E: np}}, "m")}},
		{Items: []ref.Item{item(np, "a b"), item(nq, "b`c")}},
		{Star: true, Items: []ref.Item{item(np, "x"), item(nq, ""), item(lit(1), "y")}},
	}
	lims := []ref.Expr{nil, lit(0), lit(1), lit(2), lit(3), lit(9), ref.Param("s"), plus(lit(1), ref.Param("s"))}
	opts := ref.Opts{Params: map[string]ref.V{"s": 1, "f": 1.5, "x": "a", "u": nil}}
	kinds := []nodeKind{{}, {props: ref.Map{"p": 1, "q": 2}}, {props: ref.Map{"p": 2, "q": 1}}, {props: ref.Map{"q": 1}}, {props: ref.Map{"p": 2, "q": 2}}}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	gs := nodeSequences(0, 3, kinds)
	gs = append(gs, nodeSequences(4, depth, kinds[1:4])...)
	r.Note("node_sequences", int64(len(gs)))
	reads := []ref.Match{{Parts: []ref.Part{nodePart(nP("n"))}}}
	orders := func(cols []string, distinct, rowVars bool) [][]ref.SortItem {
		out := [][]ref.SortItem{nil}
		var keys []ref.Expr
		for _, c := range cols {
			if c == "x" || c == "y" {
				keys = append(keys, ref.Var(c))
			}
		}
		if !distinct && rowVars {
			keys = append(keys, np, nq)
		}
		for _, k := range keys {
			for _, d := range []bool{false, true} {
				out = append(out, []ref.SortItem{{E: k, Desc: d}})
				for _, l := range keys {
					if l.Str() == k.Str() {
						continue
					}
					for _, d2 := range []bool{false, true} {
						out = append(out, []ref.SortItem{{E: k, Desc: d}, {E: l, Desc: d2}})
					}
				}
			}
		}
		if !distinct && rowVars {
			out = append(out, []ref.SortItem{{E: plus(np, nq)}}, []ref.SortItem{{E: ref.Neg{E: np}, Desc: true}}, []ref.SortItem{{E: lit(1)}},
				[]ref.SortItem{{E: ref.IsNull{E: np}}, {E: nq, Desc: true}, {E: np}})
		}
		return out
	}
	var rets []ref.Return
	for pi, p := range projections {
		var cols []string
		for i, it := range p.Items {
			_ = i
			cols = append(cols, it.As)
		}
		for _, distinct := range []bool{false, true} {
			for oi, o := range orders(cols, distinct, true) {
				for si, s := range lims {
					for li, l := range lims {
						if !r.Thorough && (pi > 1 || oi > 3) && si > 0 && li > 0 && (si+li+oi+pi)%4 != 0 {
							continue
						}
						q := p
						q.Distinct, q.Order, q.Skip, q.Limit = distinct, o, s, l
						rets = append(rets, q)
					}
				}
			}
		}
	}
	r.Note("return_clauses", int64(len(rets)))
	r.Par(len(rets), func(w *mc.W, i int) {
		runReturn(w, "all sequences of up to 3 nodes of 5 kinds and 4 or more of 3 kinds", gs, reads, rets[i], opts)
	})
	// Values of other kinds
	other := []nodeKind{{props: ref.Map{"p": "a"}}, {props: ref.Map{"p": "b", "q": true}}, {props: ref.Map{"q": false}}, {props: ref.Map{"p": "B", "q": true}}, {props: ref.Map{"p": "", "q": false}}}
	lists := []nodeKind{{props: ref.Map{"p": ref.List{1}}}, {props: ref.Map{"p": ref.List{1, 2}}}, {props: ref.Map{"p": ref.List{}}}, {}, {props: ref.Map{"p": ref.List{2, 1}}}}
	dates := []nodeKind{{props: ref.Map{"p": ref.Date{Y: 2020, M: 1, D: 2}, "q": ref.Dur{Mo: 1}}}, {props: ref.Map{"p": ref.Date{Y: 2019, M: 12, D: 31}, "q": ref.Dur{D: 1}}}, {props: ref.Map{"p": ref.Date{Y: 2020, M: 1, D: 2}, "q": ref.Dur{Mo: 1}}}, {}}
	floats := []nodeKind{{props: ref.Map{"p": 1, "q": 1.5}}, {props: ref.Map{"p": 1.5, "q": 2}}, {props: ref.Map{"p": -1, "q": -0.5}}, {props: ref.Map{"p": 2}}}
	for fi, ks := range [][]nodeKind{other, lists, dates, floats} {
		g := nodeSequences(0, 3, ks)
		var rs []ref.Return
		for pi, p := range projections {
			if pi == 6 {
				continue
			}
			var cols []string
			for _, it := range p.Items {
				cols = append(cols, it.As)
			}
			for _, distinct := range []bool{false, true} {
				os := orders(cols, distinct, true)
				if fi == 1 {
					os = os[:1]
				}
				for _, o := range os {
					bad := false
					for _, k := range o {
						if _, ok := k.E.(ref.Neg); ok {
							bad = true
						}
						if _, ok := k.E.(ref.Bin); ok {
							bad = true
						}
					}
					if bad {
						continue
					}
					for _, l := range []ref.Expr{nil, lit(2)} {
						q := p
						q.Distinct, q.Order, q.Limit = distinct, o, l
						rs = append(rs, q)
					}
				}
			}
		}
		r.Note("return_clauses", int64(len(rs)))
		r.Par(len(rs), func(w *mc.W, i int) {
			runReturn(w, fmt.Sprintf("all sequences of up to 3 nodes (values %d)", fi), g, reads, rs[i], opts)
		})
	}
	// Several rows per node, relationships and paths
	eg := graphsOf(1, 3, kinds[:2], 2, []edgeKind{{typ: "X"}, {typ: "Y", props: ref.Map{"w": 1}}})
	if !r.Thorough {
		eg = append(graphsOf(1, 2, kinds[:2], 2, []edgeKind{{typ: "X"}, {typ: "Y", props: ref.Map{"w": 1}}}), graphsOf(3, 3, kinds[:1], 2, []edgeKind{{typ: "X"}})...)
	}
	r.Note("relationship_graphs", int64(len(eg)))
	var erets []ref.Return
	var ereads [][]ref.Match
	for _, rd := range [][]ref.Match{
		{{Parts: []ref.Part{part(nP("n"), ref.RelPat{Var: "e", Dir: ref.Both}, nP("m"))}}},
		{{Parts: []ref.Part{part(nP("n"), ref.RelPat{Var: "e", Rng: "*"}, nP("m"))}}},
		{{Parts: []ref.Part{nodePart(nP("n"))}}, {Optional: true, Parts: []ref.Part{part(nP("n"), ref.RelPat{Var: "e"}, nP("m"))}}},
		{{Parts: []ref.Part{nodePart(nP("n")), nodePart(nP("m"))}}},
	} {
		hasE := false
		for _, v := range ref.PartVars(allParts(rd)) {
			hasE = hasE || v == "e"
		}
		var ps []ref.Return
		for _, v := range ref.PartVars(allParts(rd)) {
			ps = append(ps, ref.Return{Items: []ref.Item{item(ref.Var(v), "x")}}, ref.Return{Items: []ref.Item{item(ref.Var(v), v)}})
		}
		ps = append(ps, ref.Return{Star: true}, ref.Return{Items: []ref.Item{item(np, "x"), item(prop("m", "p"), "y")}}, ref.Return{Star: true, Items: []ref.Item{item(prop("m", "p"), "y")}},
			ref.Return{Items: []ref.Item{item(ref.IsNull{E: ref.Var("m")}, "x")}})
		if hasE && rd[0].Parts[0].Rels != nil && rd[0].Parts[0].Rels[0].Rng == "" {
			ps = append(ps, ref.Return{Items: []ref.Item{item(ref.Call{F: "type", Args: []ref.Expr{ref.Var("e")}}, "x"), item(prop("e", "w"), "y")}})
		}
		for _, p := range ps {
			for _, d := range []bool{false, true} {
				os := [][]ref.SortItem{nil}
				if !d {
					os = append(os, []ref.SortItem{{E: np}}, []ref.SortItem{{E: np, Desc: true}, {E: prop("m", "p")}}, []ref.SortItem{{E: prop("m", "p"), Desc: true}})
				}
				for _, o := range os {
					for _, s := range []ref.Expr{nil, lit(1)} {
						for _, l := range []ref.Expr{nil, lit(1), lit(3)} {
							q := p
							q.Distinct, q.Order, q.Skip, q.Limit = d, o, s, l
							erets = append(erets, q)
							ereads = append(ereads, rd)
						}
					}
				}
			}
		}
	}
	r.Note("return_clauses", int64(len(erets)))
	r.Par(len(erets), func(w *mc.W, i int) {
		runReturn(w, "all graphs of 1..3 nodes and 0..2 relationships", eg, ereads[i], erets[i], opts)
	})
	// No MATCH, and errors
	var nrets []ref.Return
	for _, its := range [][]ref.Item{{item(lit(1), "x")}, {item(lit(nil), "")}, {item(lit(1), ""), item(lit("a"), "b"), item(ref.ListX{}, "")}, {item(ref.Param("s"), "s"), item(ref.Param("zz"), "t")}, {item(ref.Var("zz"), "x")}} {
		for _, d := range []bool{false, true} {
			for _, o := range [][]ref.SortItem{nil, {{E: ref.Var("x")}}, {{E: lit(1), Desc: true}}, {{E: ref.Var("zz")}}} {
				for _, s := range append(lims, ref.Param("f"), ref.Param("x"), ref.Param("zz"), lit("a"), lit(nil)) {
					for _, l := range append(lims, ref.Param("f"), ref.Param("x"), ref.Param("zz"), lit(2.0)) {
						nrets = append(nrets, ref.Return{Distinct: d, Items: its, Order: o, Skip: s, Limit: l})
					}
				}
			}
		}
	}
	r.Note("return_clauses", int64(len(nrets)))
	one := []*ref.Graph{ref.NewGraph()}
	two := nodeSequences(0, 2, kinds[:3])
	r.Par(len(nrets), func(w *mc.W, i int) {
		runReturn(w, "the empty graph", one, nil, nrets[i], opts)
		if i%3 == 0 || r.Thorough {
			runReturn(w, "all sequences of up to 2 nodes", two, reads, nrets[i], opts)
		}
	})
}
