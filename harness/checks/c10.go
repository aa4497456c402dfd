package checks

import (
	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C10", Level: "model_checking",
		Bounds: "all pairs and triples of patterns from the listed alphabet, combined in one MATCH, several MATCH clauses and OPTIONAL MATCH clauses in every arrangement, with every WHERE condition of the alphabet on each clause, on all graphs up to isomorphism with up to 3 nodes and 2 relationships, in several creation orders" + sizeBounds + objectBounds,
		Assume: []string{"a pattern part does not use variables of the same MATCH clause in its property values", "a WHERE condition that is neither boolean nor null is not checked"},
		Fn:     runC10,
	})
}

func nP(v string, labels ...string) ref.NodePat { return ref.NodePat{Var: v, Labels: labels} }

func part(a ref.NodePat, r ref.RelPat, b ref.NodePat) ref.Part {
	return ref.Part{Nodes: []ref.NodePat{a, b}, Rels: []ref.RelPat{r}}
}

func part3(a ref.NodePat, r ref.RelPat, b ref.NodePat, s ref.RelPat, c ref.NodePat) ref.Part {
	return ref.Part{Nodes: []ref.NodePat{a, b, c}, Rels: []ref.RelPat{r, s}}
}

func nodePart(a ref.NodePat) ref.Part { return ref.Part{Nodes: []ref.NodePat{a}} }

func prop(v, k string) ref.Expr { return ref.Prop{E: ref.Var(v), K: k} }

func lit(v ref.V) ref.Expr { return ref.Lit{V: v} }

func cmp(a ref.Expr, op string, b ref.Expr) ref.Expr {
	return ref.C1(op, a, b)
}

// arrangements combine patterns to clauses: every split of the sequence
// to clauses, every choice of OPTIONAL
func arrangements(parts []ref.Part) [][]ref.Match {
	var out [][]ref.Match
	n := len(parts)
	for split := 0; split < 1<<(n-1); split++ {
		var groups [][]ref.Part
		cur := []ref.Part{parts[0]}
		for i := 1; i < n; i++ {
			if split>>(i-1)&1 == 1 {
				groups = append(groups, cur)
				cur = nil
			}
			cur = append(cur, parts[i])
		}
		groups = append(groups, cur)
		for opt := 0; opt < 1<<len(groups); opt++ {
			var ms []ref.Match
			for i, g := range groups {
				ms = append(ms, ref.Match{Optional: opt>>i&1 == 1, Parts: g})
			}
			out = append(out, ms)
		}
	}
	return out
}

func allParts(ms []ref.Match) []ref.Part {
	var p []ref.Part
	for _, m := range ms {
		p = append(p, m.Parts...)
	}
	return p
}

func runC10(r *mc.Run) {
	sizesC10(r)
	X := []edgeKind{{typ: "X"}}
	kinds := []nodeKind{{}, {labels: []string{"A"}}}
	gs := append(graphsOf(0, 2, kinds, 2, X), graphsOf(3, 3, kinds, 2, X)...)
	small := append(graphsOf(0, 2, kinds, 2, X), graphsOf(3, 3, kinds[:1], 2, X)...)
	pk := []nodeKind{{}, {props: ref.Map{"p": 1}}, {props: ref.Map{"p": 2}}}
	wk := []edgeKind{{typ: "X"}, {typ: "Y", props: ref.Map{"w": 1}}}
	pg := append(graphsOf(0, 2, pk, 1, wk), graphsOf(2, 2, pk[:2], 2, wk)...)
	pg = append(pg, graphsOf(3, 3, pk, 0, wk)...)
	if !r.Thorough {
		pg = append(graphsOf(0, 2, pk, 1, wk), graphsOf(3, 3, pk[:2], 0, wk)...)
	}
	r.Note("graphs_labels", int64(len(gs)))
	r.Note("graphs_properties", int64(len(pg)))

	R := func(v, rng string) ref.RelPat { return ref.RelPat{Var: v, Rng: rng} }
	L := func(v, rng string) ref.RelPat { return ref.RelPat{Var: v, Rng: rng, Dir: ref.Left} }
	B := func(v, rng string) ref.RelPat { return ref.RelPat{Var: v, Rng: rng, Dir: ref.Both} }
	alpha := []ref.Part{
		nodePart(nP("a")), nodePart(nP("b")), nodePart(nP("a", "A")), nodePart(nP("b", "A")), nodePart(nP("")), nodePart(nP("a", "C")),
		part(nP("a"), R("e", ""), nP("b")), part(nP("b"), R("e", ""), nP("a")), part(nP("a"), B("e", ""), nP("b")),
		part(nP("b"), R("f", ""), nP("c")), part(nP("a"), R("f", ""), nP("b")), part(nP("c"), L("f", ""), nP("a")),
		part(nP("a"), R("", ""), nP("a")), part(nP("b", "A"), R("f", ""), nP("c")), part(nP("", "A"), R("", ""), nP("b")),
		part(nP("a"), R("e", "*"), nP("b")), part(nP("b"), B("f", "*1..2"), nP("c", "A")), part(nP("b"), L("e", "*2"), nP("c")),
		part3(nP("a"), R("e", ""), nP("b"), R("f", ""), nP("c")), part3(nP("b"), R("", ""), nP("c"), B("", ""), nP("b")),
	}
	var qs []ref.Query
	for _, p := range alpha {
		for _, q := range alpha {
			for _, ms := range arrangements([]ref.Part{p, q}) {
				qs = append(qs, ref.Q(ms, nil, varsReturn(allParts(ms)...)))
			}
		}
	}
	r.Note("queries_pairs", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		g := small
		if r.Thorough {
			g = gs
		}
		runOnAll(w, "all graphs of 0..3 nodes and 0..2 relationships", g, qs[i], fewOrders, qopts{})
	})
	few := []ref.Part{alpha[0], alpha[3], alpha[6], alpha[8], alpha[11]}
	if r.Thorough {
		few = append(few, alpha[9], alpha[15], alpha[1], alpha[7], alpha[12], alpha[16])
	}
	tg := append(graphsOf(0, 2, kinds, 1, X), graphsOf(2, 3, kinds[:1], 2, X)...)
	var ts []ref.Query
	for _, p := range few {
		for _, q := range few {
			for _, s := range few {
				for _, ms := range arrangements([]ref.Part{p, q, s}) {
					ts = append(ts, ref.Q(ms, nil, varsReturn(allParts(ms)...)))
				}
			}
		}
	}
	r.Note("queries_triples", int64(len(ts)))
	r.Par(len(ts), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 0..2 nodes and a relationship, 2..3 nodes and 2 relationships", tg, ts[i], fewOrders, qopts{})
	})
	// WHERE
	conds := func(vars []string) []ref.Expr {
		has := map[string]bool{}
		for _, v := range vars {
			has[v] = true
		}
		out := []ref.Expr{nil, lit(true), lit(false), lit(nil), ref.Param("t"), cmp(ref.Param("n"), "=", lit(1))}
		if has["a"] {
			ap := prop("a", "p")
			out = append(out, cmp(ap, "=", lit(1)), cmp(ap, "<>", lit(1)), cmp(ap, ">", lit(1)), ref.IsNull{E: ap}, ref.IsNull{E: ap, Not: true},
				ref.Not{E: cmp(ap, "=", lit(1))}, ref.Bin{Op: "OR", A: cmp(ap, "=", lit(1)), B: ref.IsNull{E: ap}}, ref.Bin{Op: "AND", A: lit(true), B: cmp(ap, "<", lit(2))},
				ref.Bin{Op: "IN", A: ap, B: ref.ListX{lit(1), lit(nil)}}, ref.Bin{Op: "XOR", A: cmp(ap, "=", lit(1)), B: lit(true)})
		}
		if has["a"] && has["b"] {
			out = append(out, cmp(prop("a", "p"), "=", prop("b", "p")), cmp(prop("a", "p"), "<", prop("b", "p")), ref.Bin{Op: "AND", A: cmp(prop("a", "p"), "=", lit(1)), B: ref.IsNull{E: prop("b", "p")}},
				ref.Bin{Op: "OR", A: cmp(prop("a", "p"), "=", lit(2)), B: cmp(prop("b", "p"), "=", lit(1))})
		}
		if has["b"] {
			out = append(out, cmp(prop("b", "p"), "=", lit(1)), ref.IsNull{E: prop("b", "p")}, ref.IsNull{E: ref.Var("b")})
		}
		if has["e"] {
			out = append(out, cmp(ref.Call{F: "type", Args: []ref.Expr{ref.Var("e")}}, "=", lit("Y")), cmp(prop("e", "w"), "=", lit(1)))
		}
		return out
	}
	wp := []ref.Part{nodePart(nP("a")), nodePart(nP("b")), part(nP("a"), R("e", ""), nP("b")), part(nP("a"), B("e", ""), nP("b")), part(nP("b"), R("f", ""), nP("c"))}
	var ws []ref.Query
	for _, p := range wp {
		for _, c := range conds(ref.PartVars([]ref.Part{p})) {
			for _, opt := range []bool{false, true} {
				m := ref.Match{Parts: []ref.Part{p}, Where: c, Optional: opt}
				ws = append(ws, ref.Q([]ref.Match{m}, nil, varsReturn(p)))
			}
		}
		for _, q := range wp {
			both := ref.PartVars([]ref.Part{p, q})
			for _, opt := range []bool{false, true} {
				for _, c := range conds(both) {
					ws = append(ws, ref.Q([]ref.Match{{Parts: []ref.Part{p, q}, Where: c, Optional: opt}}, nil, varsReturn(p, q)))
				}
			}
			c1s := conds(ref.PartVars([]ref.Part{p}))
			for i, c1 := range c1s {
				for j, c2 := range conds(both) {
					if !r.Thorough && i > 0 && j > 0 && (i+j)%8 != 0 {
						continue
					}
					for opt := 0; opt < 4; opt++ {
						ws = append(ws, ref.Q([]ref.Match{{Parts: []ref.Part{p}, Where: c1, Optional: opt&1 == 1}, {Parts: []ref.Part{q}, Where: c2, Optional: opt&2 == 2}}, nil, varsReturn(p, q)))
					}
				}
			}
		}
	}
	r.Note("queries_where", int64(len(ws)))
	params := map[string]ref.V{"t": true, "n": nil}
	r.Par(len(ws), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 0..3 nodes and 0..2 relationships with properties", pg, ws[i], fewOrders, qopts{params: params})
	})
	// Property values that use variables of earlier clauses
	var vs []ref.Query
	first := []ref.Match{{Parts: []ref.Part{nodePart(nP("a"))}}, {Parts: []ref.Part{part(nP("a"), R("e", ""), nP("b"))}}, {Optional: true, Parts: []ref.Part{nodePart(nP("a", "C"))}}, {Parts: []ref.Part{nodePart(nP("a")), nodePart(nP("b"))}}}
	exprs := []ref.Expr{prop("a", "p"), ref.Bin{Op: "+", A: prop("a", "p"), B: lit(1)}, ref.Param("one"), ref.Bin{Op: "-", A: lit(3), B: prop("a", "p")},
		ref.Case{When: []ref.Expr{ref.IsNull{E: prop("a", "p")}}, Then: []ref.Expr{lit(1)}, Else: lit(2)}}
	for _, m := range first {
		for _, e := range exprs {
			px := ref.MapX{{K: "p", E: e}}
			wx := ref.MapX{{K: "w", E: e}}
			for _, opt := range []bool{false, true} {
				for _, p := range []ref.Part{
					nodePart(ref.NodePat{Var: "c", Props: px}), nodePart(ref.NodePat{Var: "a", Props: px}),
					part(ref.NodePat{Var: "c", Props: px}, R("f", ""), nP("d")), part(nP("c"), ref.RelPat{Var: "f", Props: wx}, nP("d")),
					part(nP("a"), ref.RelPat{Var: "f", Dir: ref.Both, Rng: "*", Props: wx}, nP("d")), part(nP("c"), B("f", ""), ref.NodePat{Props: px}),
				} {
					second := ref.Match{Optional: opt, Parts: []ref.Part{p}}
					ms := []ref.Match{m, second}
					vs = append(vs, ref.Q(ms, nil, varsReturn(allParts(ms)...)))
					third := ref.Match{Optional: !opt, Parts: []ref.Part{part(nP("c"), B("g", ""), nP("h"))}, Where: cmp(prop("h", "p"), "<>", prop("a", "p"))}
					ms = []ref.Match{m, second, third}
					vs = append(vs, ref.Q(ms, nil, varsReturn(allParts(ms)...)))
				}
			}
		}
	}
	r.Note("queries_dependent_values", int64(len(vs)))
	r.Par(len(vs), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 0..3 nodes and 0..2 relationships with properties", pg, vs[i], fewOrders, qopts{params: map[string]ref.V{"one": 1}})
	})
}
