package checks

import (
	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C13", Level: "model_checking",
		Bounds: "all CREATE patterns of up to 2 relationships (thorough 3) over every naming of their nodes, every direction, and all pairs of parts and of clauses of the alphabets, after every reading clause of the alphabet, on all graphs up to isomorphism with up to 2 nodes and 2 relationships (thorough 3 nodes), with every property value of the alphabet; all sequences of two (thorough three) updating clauses with one of this kind, after each of seven reading clauses" + sizeBounds + objectBounds,
		Assume: []string{"the graph after a failing CREATE is only required to be consistent", "undirected relationships in CREATE are not checked", "the result is compared up to the identity of new elements"},
		Fn:     runC13,
	})
}

func runC13(r *mc.Run) {
	sizesC13(r)
	combos(r, "create")
	A := []nodeKind{{}, {labels: []string{"A"}, props: ref.Map{"p": 1}}}
	X := []edgeKind{{typ: "X"}}
	gs := append(graphsOf(0, 2, A, 1, X), graphsOf(2, 2, A[:1], 2, X)...)
	if r.Thorough {
		gs = append(graphsOf(0, 2, A, 2, X), graphsOf(3, 3, A, 1, X)...)
	}
	r.Note("graphs", int64(len(gs)))
	R := func(v string, types ...string) ref.RelPat { return ref.RelPat{Var: v, Types: types} }
	L := func(v string, types ...string) ref.RelPat { return ref.RelPat{Var: v, Types: types, Dir: ref.Left} }
	reads := [][]ref.Match{
		nil,
		{{Parts: []ref.Part{nodePart(nP("a"))}}},
		{{Parts: []ref.Part{nodePart(nP("a", "A")), nodePart(nP("b"))}}},
		{{Parts: []ref.Part{part(nP("a"), R("e"), nP("b"))}}},
		{{Parts: []ref.Part{nodePart(nP("a", "C"))}}},
		{{Optional: true, Parts: []ref.Part{nodePart(nP("c", "C"))}}},
		{{Parts: []ref.Part{nodePart(nP("a"))}}, {Parts: []ref.Part{nodePart(nP("b", "A"))}, Where: cmp(prop("b", "p"), "=", lit(1))}},
	}
	// every chain
	var parts []ref.Part
	depth := 2
	if r.Thorough {
		depth = 3
	}
	for n := 0; n <= depth; n++ {
		for _, vars := range nodeVars(n + 1) {
			for d := 0; d < 1<<n; d++ {
				p := ref.Part{}
				for i := 0; i < n; i++ {
					rel := R([]string{"f", "", "g"}[i], []string{"X", "Y", "Z"}[i])
					if d>>i&1 == 1 {
						rel.Dir = ref.Left
					}
					p.Rels = append(p.Rels, rel)
				}
				for _, v := range vars {
					p.Nodes = append(p.Nodes, nP(v))
				}
				parts = append(parts, p)
			}
		}
	}
	// labels and unnamed elements
	labs := [][]string{nil, {"A"}, {"A", "B"}, {"B", "A", "B"}, {"a b"}}
	for _, l := range labs {
		parts = append(parts, nodePart(nP("", l...)), nodePart(nP("x", l...)), part(nP("", l...), R("", "X"), nP("")), part(nP("x"), L("f", "Y"), nP("y", l...)), part(nP("a"), R("f", "X"), nP("", l...)),
			part(nP("a", l...), R("", "X"), nP("b")))
	}
	// properties
	vals := []ref.Expr{lit(1), lit(-5), lit(2.5), lit("s"), lit(""), lit(true), lit(false), lit(nil), lit(ref.List{1, "a"}), lit(ref.List{}), ref.Param("v"), ref.Param("d"), ref.Param("zz"), ref.Bin{Op: "+", A: lit(1), B: lit(2)}, prop("a", "p"),
		ref.Bin{Op: "/", A: lit(1), B: lit(0)}, ref.ListX{prop("a", "p"), lit(1)}, ref.Call{F: "date", Args: []ref.Expr{lit("2020-02-29")}}, ref.Case{When: []ref.Expr{ref.IsNull{E: ref.Param("n")}}, Then: []ref.Expr{lit(1)}}}
	for _, v := range vals {
		px := ref.MapX{{K: "p", E: v}}
		pq := ref.MapX{{K: "q", E: lit(1)}, {K: "p", E: v}, {K: "a b", E: lit("z")}}
		parts = append(parts, nodePart(ref.NodePat{Props: px}), nodePart(ref.NodePat{Var: "x", Labels: []string{"B"}, Props: pq}),
			part(nP("x"), ref.RelPat{Var: "f", Types: []string{"X"}, Props: px}, nP("y")), part(nP("a"), ref.RelPat{Types: []string{"X"}, Dir: ref.Left, Props: pq}, ref.NodePat{Props: px}))
	}
	for _, m := range []ref.Expr{ref.Param("m"), ref.Param("v"), ref.Param("zz"), ref.MapX{}} {
		parts = append(parts, nodePart(ref.NodePat{Var: "x", Props: m}), part(nP("x"), ref.RelPat{Var: "f", Types: []string{"X"}, Props: m}, nP("y")), nodePart(ref.NodePat{Var: "a", Props: m}))
	}
	// invalid or unusual
	parts = append(parts, part(nP("x"), ref.RelPat{Var: "f", Types: []string{"X", "Y"}}, nP("y")), part(nP("x"), ref.RelPat{Types: []string{"X"}, Rng: "*"}, nP("y")), part(nP("x"), ref.RelPat{Types: []string{"X"}, Rng: "*1..2"}, nP("y")),
		part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}}, nP("b")), part3(nP("x"), R("f", "X"), nP("y"), R("f", "Y"), nP("z")), nodePart(ref.NodePat{Var: "a", Labels: []string{"Z"}}),
		part(nP("x"), R("x", "X"), nP("y")), part3(nP("x", "A"), R("", "X"), nP("y"), R("", "X"), nP("x", "B")), part(nP("f"), R("", "X"), nP("y")), nodePart(nP("e")), part(nP("x"), R("f"), nP("y")))
	params := map[string]ref.V{"v": "pv", "d": ref.Date{Y: 2020, M: 2, D: 29}, "m": ref.Map{"p": 3, "q": nil, "r": "t"}, "n": nil}
	filter := func(k string, v ref.V) ref.V {
		if k == "p" {
			return ref.List{"filtered", v}
		}
		return v
	}
	ret := func(reads []ref.Match, ps ...ref.Part) *ref.Return {
		return varsReturn(append(allParts(reads), ps...)...)
	}
	type job struct {
		q ref.Query
		f bool
	}
	var qs []job
	for _, rd := range reads {
		for _, p := range parts {
			c := ref.Create{Parts: []ref.Part{p}}
			qs = append(qs, job{q: ref.Q(rd, []ref.Update{c}, ret(rd, p))}, job{q: ref.Q(rd, []ref.Update{c}, nil), f: true})
		}
	}
	// Two parts, two clauses, and the use of what was created
	few := []ref.Part{nodePart(nP("a")), nodePart(nP("x", "A")), nodePart(ref.NodePat{Var: "x", Props: ref.MapX{{K: "p", E: lit(4)}}}), nodePart(nP("y")), part(nP("x"), R("f", "X"), nP("y")), part(nP("a"), L("f", "X"), nP("x")),
		part(nP("y"), R("", "Y"), nP("y")), part(nP("x"), R("g", "X"), nP("a")), part(nP("a"), R("h", "X"), nP("b")), nodePart(ref.NodePat{Var: "z", Props: ref.MapX{{K: "p", E: ref.Bin{Op: "+", A: prop("x", "p"), B: lit(1)}}}}), part(nP(""), R("", "W"), nP(""))}
	for _, rd := range reads {
		for _, p := range few {
			for _, q := range few {
				qs = append(qs, job{q: ref.Q(rd, []ref.Update{ref.Create{Parts: []ref.Part{p, q}}}, ret(rd, p, q))})
				qs = append(qs, job{q: ref.Q(rd, []ref.Update{ref.Create{Parts: []ref.Part{p}}, ref.Create{Parts: []ref.Part{q}}}, ret(rd, p, q))})
				if r.Thorough {
					for _, s := range few {
						qs = append(qs, job{q: ref.Q(rd, []ref.Update{ref.Create{Parts: []ref.Part{p, q}}, ref.Create{Parts: []ref.Part{s}}}, ret(rd, p, q, s))})
					}
				}
			}
			sets := ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "x", Key: "k", E: lit(9)}, {Kind: "label", Var: "x", Labels: []string{"L"}}}}
			qs = append(qs, job{q: ref.Q(rd, []ref.Update{ref.Create{Parts: []ref.Part{p}}, sets}, ret(rd, p)), f: true})
			star := starReturn()
			qs = append(qs, job{q: ref.Q(rd, []ref.Update{ref.Create{Parts: []ref.Part{p}}}, star)})
		}
	}
	r.Note("queries", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		o := qopts{params: params}
		fam := "all graphs of 0..2 nodes"
		if qs[i].f {
			o.filter = filter
			fam += " with a property filter"
		}
		runOnAll(w, fam, gs, qs[i].q, fewOrders, o)
	})
}
