package checks

import (
	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C15", Level: "model_checking",
		Bounds: "DELETE and DETACH DELETE of every list of up to 3 expressions of the alphabet, in one clause or two, after every reading clause of the alphabet, on all graphs up to isomorphism with up to 3 nodes and 3 relationships, in several (thorough: all) creation orders; all sequences of two (thorough three) updating clauses with one of this kind, after each of seven reading clauses" + sizeBounds + objectBounds,
		Assume: []string{"later clauses do not use deleted elements", "only nodes, relationships, paths and null are deleted"},
		Fn:     runC15,
	})
}

func runC15(r *mc.Run) {
	sizesC15(r)
	combos(r, "delete")
	X := []edgeKind{{typ: "X"}}
	XY := []edgeKind{{typ: "X"}, {typ: "Y", props: ref.Map{"w": 1}}}
	plain := []nodeKind{{}}
	kinds := []nodeKind{{}, {labels: []string{"A"}, props: ref.Map{"p": 1}}}
	gs := append(graphsOf(0, 3, plain, 3, X), graphsOf(1, 2, kinds, 2, XY)...)
	small := append(graphsOf(0, 2, kinds, 2, X), graphsOf(3, 3, plain, 2, X)...)
	if r.Thorough {
		gs = append(gs, graphsOf(3, 3, kinds, 2, XY)...)
		small = gs
	}
	r.Note("graphs", int64(len(gs)))
	rel := func(v, rng string, d ref.Dir, types ...string) ref.RelPat {
		return ref.RelPat{Var: v, Rng: rng, Dir: d, Types: types}
	}
	reads := [][]ref.Match{
		{{Parts: []ref.Part{nodePart(nP("a"))}}},
		{{Parts: []ref.Part{nodePart(nP("a", "A"))}}},
		{{Parts: []ref.Part{nodePart(nP("a")), nodePart(nP("b"))}}},
		{{Parts: []ref.Part{part(nP("a"), rel("e", "", ref.Right), nP("b"))}}},
		{{Parts: []ref.Part{part(nP("a"), rel("e", "", ref.Both), nP("b"))}}},
		{{Parts: []ref.Part{part(nP("a"), rel("e", "*", ref.Right), nP("b"))}}},
		{{Parts: []ref.Part{part(nP("a"), rel("e", "*2", ref.Both), nP("b"))}}},
		{{Parts: []ref.Part{part(nP("a"), rel("e", "", ref.Left, "Y"), nP("b", "A"))}}},
		{{Parts: []ref.Part{nodePart(nP("a"))}}, {Optional: true, Parts: []ref.Part{part(nP("a"), rel("e", "", ref.Right), nP("b"))}}},
		{{Parts: []ref.Part{part3(nP("a"), rel("e", "", ref.Right), nP("b"), rel("f", "", ref.Right), nP("c"))}}},
		{{Optional: true, Parts: []ref.Part{part(nP("a", "C"), rel("e", "", ref.Right), nP("b"))}}},
		{{Parts: []ref.Part{part(nP("a"), rel("e", "", ref.Right), nP("b"))}, Where: cmp(prop("a", "p"), "=", lit(1))}},
	}
	type job struct {
		q ref.Query
		g []*ref.Graph
	}
	var qs []job
	for _, rd := range reads {
		vars := ref.PartVars(allParts(rd))
		var es []ref.Expr
		for _, v := range vars {
			es = append(es, ref.Var(v))
		}
		var lists [][]ref.Expr
		for i, a := range es {
			lists = append(lists, []ref.Expr{a})
			for j, b := range es {
				if i == j && i > 0 {
					continue
				}
				lists = append(lists, []ref.Expr{a, b})
				for k, c := range es {
					if i < j && j < k {
						lists = append(lists, []ref.Expr{a, b, c})
					}
				}
			}
		}
		lists = append(lists, []ref.Expr{lit(nil)}, []ref.Expr{es[0], lit(nil)}, []ref.Expr{ref.Var("zz")}, []ref.Expr{es[0], ref.Param("zz")}, []ref.Expr{prop("a", "nosuch")},
			[]ref.Expr{ref.Case{When: []ref.Expr{cmp(prop("a", "p"), "=", lit(1))}, Then: []ref.Expr{ref.Var("a")}}}, []ref.Expr{ref.Index{E: ref.ListX{ref.Var("a")}, I: lit(0)}})
		for _, l := range lists {
			for _, detach := range []bool{false, true} {
				d := ref.Delete{Detach: detach, Exprs: l}
				qs = append(qs, job{ref.Q(rd, []ref.Update{d}, nil), gs})
				qs = append(qs, job{ref.Q(rd, []ref.Update{d}, &ref.Return{Items: []ref.Item{{E: lit(1), As: "x"}}}), small})
				if len(l) == 2 {
					d1, d2 := ref.Delete{Detach: detach, Exprs: l[:1]}, ref.Delete{Exprs: l[1:]}
					qs = append(qs, job{ref.Q(rd, []ref.Update{d1, d2}, nil), small})
				}
			}
		}
	}
	r.Note("queries", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		orders := fewOrders
		if r.Thorough && len(qs[i].q.Singles[0].Upds) == 1 && qs[i].q.Singles[0].Ret == nil {
			orders = allOrders
		}
		runOnAll(w, "all graphs of 0..3 nodes and 0..3 relationships", qs[i].g, qs[i].q, orders, qopts{})
	})
}
