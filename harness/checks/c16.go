package checks

import (
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C16", Level: "model_checking",
		Bounds: "all MERGE patterns of the alphabet (nodes with labels and properties, one and two relationships in either direction, bound and new nodes), with every combination of ON CREATE and ON MATCH actions, after every reading clause of the alphabet, alone, repeated and followed by another MERGE, on all graphs up to isomorphism with up to 2 (thorough 3) nodes and 2 relationships; all sequences of two (thorough three) updating clauses with one of this kind, after each of seven reading clauses" + sizeBounds + objectBounds,
		Assume: []string{"undirected patterns are only merged when they match; null property values are not checked; rows of reading clauses may come in any order"},
		Fn:     runC16,
	})
}

func runC16(r *mc.Run) {
	sizesC16(r)
	combos(r, "merge")
	kinds := []nodeKind{{}, {labels: []string{"A"}, props: ref.Map{"p": 1}}, {labels: []string{"A"}, props: ref.Map{"p": 2}}}
	XY := []edgeKind{{typ: "X"}, {typ: "Y", props: ref.Map{"w": 1}}}
	gs := append(graphsOf(0, 2, kinds, 1, XY), graphsOf(2, 2, kinds[:2], 2, XY)...)
	gs = append(gs, graphsOf(3, 3, kinds[1:], 0, XY)...)
	if r.Thorough {
		gs = append(gs, graphsOf(3, 3, kinds[:2], 1, XY)...)
	}
	r.Note("graphs", int64(len(gs)))
	mp := func(kv ...interface{}) ref.MapX {
		m := ref.MapX{}
		for i := 0; i < len(kv); i += 2 {
			m = append(m, ref.KV{K: kv[i].(string), E: kv[i+1].(ref.Expr)})
		}
		return m
	}
	nP2 := func(v string, props ref.Expr, labels ...string) ref.NodePat {
		return ref.NodePat{Var: v, Props: props, Labels: labels}
	}
	R := func(v, t string) ref.RelPat { return ref.RelPat{Var: v, Types: []string{t}} }
	L := func(v, t string) ref.RelPat { return ref.RelPat{Var: v, Types: []string{t}, Dir: ref.Left} }
	reads := [][]ref.Match{
		nil,
		{{Parts: []ref.Part{nodePart(nP("a"))}}},
		{{Parts: []ref.Part{nodePart(nP("a", "A"))}}},
		{{Parts: []ref.Part{nodePart(nP("a")), nodePart(nP("b", "A"))}}},
		{{Parts: []ref.Part{part(nP("a"), ref.RelPat{Var: "g"}, nP("b"))}}},
		{{Parts: []ref.Part{nodePart(nP("a", "C"))}}},
	}
	parts := []ref.Part{
		nodePart(nP("n")), nodePart(nP("n", "A")), nodePart(nP("n", "B")), nodePart(nP("n", "A", "B")), nodePart(nP2("n", mp("p", lit(1)), "A")), nodePart(nP2("n", mp("p", lit(3)), "A")), nodePart(nP2("n", mp("p", lit(2.5), "q", lit("s")), "A")),
		nodePart(nP2("n", mp("p", ref.Param("v")))), nodePart(nP2("n", ref.Param("m"), "A")), nodePart(nP2("", mp("p", lit(1)))), nodePart(nP("")), nodePart(nP("a")),
		part(nP("n"), R("e", "X"), nP("m")), part(nP("n", "A"), R("e", "X"), nP("m", "A")), part(nP("n"), L("e", "X"), nP("m", "A")), part(nP2("n", mp("p", lit(1)), "A"), R("", "Z"), nP("m")),
		part(nP("a"), R("e", "X"), nP("b")), part(nP("b"), R("e", "X"), nP("a")), part(nP("a"), L("e", "Y"), nP("b")), part(nP("a"), R("e", "X"), nP("a")), part(nP("a"), R("e", "Z"), nP("n")), part(nP("a"), R("e", "X"), nP2("n", mp("p", lit(1)), "A")),
		part(nP(""), R("e", "X"), nP("a")), part(nP("a"), ref.RelPat{Var: "e", Types: []string{"Y"}, Props: mp("w", lit(1))}, nP("b")), part(nP("a"), ref.RelPat{Var: "e", Types: []string{"Y"}, Props: mp("w", lit(2))}, nP("n")),
		part(nP("n"), R("e", "X"), nP("n")), part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X", "Y"}}, nP("b")), part(nP("a"), ref.RelPat{Types: []string{"X"}, Rng: "*1..2"}, nP("b")), part(nP("a"), ref.RelPat{Var: "g", Types: []string{"X"}}, nP("b")),
		part3(nP("a"), R("e", "X"), nP("n", "B"), R("f", "X"), nP("b")), part3(nP("a"), R("e", "X"), nP("b"), L("f", "Y"), nP("n")), part3(nP("n", "A"), R("e", "X"), nP("m"), R("f", "X"), nP("n")),
		part(nP("a"), R("", "X"), nP2("n", mp("p", prop("a", "p")))), nodePart(nP2("n", mp("q", ref.Call{F: "size", Args: []ref.Expr{ref.Call{F: "labels", Args: []ref.Expr{ref.Var("a")}}}}), "Q")),
		nodePart(nP2("n", mp("p", ref.Param("zz")))), nodePart(nP2("n", mp("p", ref.Bin{Op: "/", A: lit(1), B: lit(0)}))),
	}
	setK := func(v, k string, e ref.Expr) ref.SetItem { return ref.SetItem{Kind: "prop", Var: v, Key: k, E: e} }
	acts := [][]ref.MergeAct{
		nil,
		{{OnCreate: true, Set: ref.Set{Items: []ref.SetItem{setK("n", "c", lit(1))}}}},
		{{OnCreate: false, Set: ref.Set{Items: []ref.SetItem{setK("n", "c", lit(2))}}}},
		{{OnCreate: true, Set: ref.Set{Items: []ref.SetItem{setK("n", "c", lit(1)), {Kind: "label", Var: "n", Labels: []string{"L"}}}}}, {OnCreate: false, Set: ref.Set{Items: []ref.SetItem{setK("n", "c", ref.Case{When: []ref.Expr{ref.IsNull{E: prop("n", "c")}}, Then: []ref.Expr{lit(0)}, Else: ref.Bin{Op: "+", A: prop("n", "c"), B: lit(1)}})}}}},
		{{OnCreate: false, Set: ref.Set{Items: []ref.SetItem{setK("a", "c", lit(2))}}}, {OnCreate: true, Set: ref.Set{Items: []ref.SetItem{{Kind: "+=", Var: "a", E: mp("c", lit(1), "p", lit(nil))}}}}},
		{{OnCreate: true, Set: ref.Set{Items: []ref.SetItem{{Kind: "=", Var: "n", E: mp("z", lit(9))}}}}, {OnCreate: true, Set: ref.Set{Items: []ref.SetItem{setK("n", "y", prop("n", "z"))}}}},
	}
	params := map[string]ref.V{"v": 2, "m": ref.Map{"p": 1}}
	type job struct {
		q ref.Query
		f bool
	}
	var qs []job
	has := func(vars []string, v string) bool {
		for _, x := range vars {
			if x == v {
				return true
			}
		}
		return false
	}
	for _, rd := range reads {
		for pi, p := range parts {
			vars := ref.PartVars(append(allParts(rd), p))
			for ai, a := range acts {
				ok := true
				for _, x := range a {
					for _, it := range x.Set.Items {
						ok = ok && has(vars, it.Var)
					}
				}
				if !ok {
					continue
				}
				m := ref.Merge{Part: p, Acts: a}
				qs = append(qs, job{q: ref.Q(rd, []ref.Update{m}, varsReturn(append(allParts(rd), p)...))})
				if ai != 0 {
					qs = append(qs, job{q: ref.Q(rd, []ref.Update{m}, nil), f: true})
				}
				if ai == 0 || r.Thorough {
					for qi, p2 := range parts {
						if !r.Thorough && (qi+pi)%6 != 0 && qi != pi {
							continue
						}
						m2 := ref.Merge{Part: p2}
						qs = append(qs, job{q: ref.Q(rd, []ref.Update{m, m2}, varsReturn(append(allParts(rd), p, p2)...))})
					}
				}
			}
		}
	}
	// MERGE with other updates
	for _, p := range parts[:8] {
		m := ref.Merge{Part: p}
		c := ref.Create{Parts: []ref.Part{part(nP("n"), R("k", "K"), nP("z", "Z"))}}
		qs = append(qs, job{q: ref.Q(nil, []ref.Update{m, c}, varsReturn(p, c.Parts[0]))}, job{q: ref.Q(nil, []ref.Update{ref.Create{Parts: []ref.Part{nodePart(nP("z", "A"))}}, m}, varsReturn(p, nodePart(nP("z"))))},
			job{q: ref.Q(reads[1], []ref.Update{ref.Set{Items: []ref.SetItem{setK("a", "p", lit(1))}}, m}, varsReturn(nodePart(nP("a")), p))})
	}
	r.Note("queries", int64(len(qs)))
	filter := func(k string, v ref.V) ref.V {
		if k == "c" || k == "y" {
			return ref.List{"filtered", v}
		}
		return v
	}
	r.Par(len(qs), func(w *mc.W, i int) {
		q := qs[i].q
		o := qopts{params: params}
		fam := "all graphs of 0..3 nodes"
		if qs[i].f {
			o.filter = filter
			fam += " with a property filter"
		}
		p, err := w.Cache.Parse(q.Str())
		if err == nil && !qs[i].f {
			// Again, on the result
			o.after = func(world *sut.World, _ *oc.EvalContext) string {
				g, err := world.Snapshot()
				if err != nil {
					return err.Error()
				}
				o2 := o
				o2.after = nil
				_, _, s := step(w, world, g, p, q, world.Ctx(nil, params), o2)
				if s != "" {
					return "when evaluated again on " + g.String() + ", " + s
				}
				return ""
			}
		}
		runOnAll(w, fam, gs, q, fewOrders, o)
	})
}
