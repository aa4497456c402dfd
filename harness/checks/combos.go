package checks

import (
	"fmt"

	"verif/harness/mc"
	"verif/harness/ref"
)

// namedUpdate is an update together with the variables it needs and binds
type namedUpdate struct {
	kind        string
	u           ref.Update
	needs, sets []string
}

func updateAlphabet() []namedUpdate {
	R := func(v, t string) ref.RelPat { return ref.RelPat{Var: v, Types: []string{t}} }
	set := func(kind, v, k string, e ref.Expr, labels ...string) ref.SetItem {
		return ref.SetItem{Kind: kind, Var: v, Key: k, E: e, Labels: labels}
	}
	plus := func(a, b ref.Expr) ref.Expr { return ref.Bin{Op: "+", A: a, B: b} }
	np := func(v string, p ref.Expr, l ...string) ref.NodePat { return ref.NodePat{Var: v, Props: p, Labels: l} }
	vs := func(v ...string) []string { return v }
	cr := func(needs, sets []string, ps ...ref.Part) namedUpdate {
		return namedUpdate{"create", ref.Create{Parts: ps}, needs, sets}
	}
	st := func(needs []string, its ...ref.SetItem) namedUpdate {
		return namedUpdate{"set", ref.Set{Items: its}, needs, nil}
	}
	rm := func(needs []string, its ...ref.RemoveItem) namedUpdate {
		return namedUpdate{"set", ref.Remove{Items: its}, needs, nil}
	}
	dl := func(detach bool, v ...string) namedUpdate {
		d := ref.Delete{Detach: detach}
		for _, x := range v {
			d.Exprs = append(d.Exprs, ref.Var(x))
		}
		return namedUpdate{"delete", d, v, nil}
	}
	mg := func(needs, sets []string, p ref.Part, acts ...ref.MergeAct) namedUpdate {
		return namedUpdate{"merge", ref.Merge{Part: p, Acts: acts}, needs, sets}
	}
	on := func(create bool, its ...ref.SetItem) ref.MergeAct {
		return ref.MergeAct{OnCreate: create, Set: ref.Set{Items: its}}
	}
	return []namedUpdate{
		cr(nil, vs("x"), nodePart(np("x", mapX("p", lit(1)), "A"))),
		cr(vs("a"), vs("x", "f"), part(nP("a"), R("f", "X"), nP("x", "B"))),
		cr(vs("a"), vs("y"), part(np("y", mapX("p", prop("a", "p"), "q", lit(0)), "A"), R("", "Y"), nP("a"))),
		cr(vs("a", "b"), nil, part(nP("a"), ref.RelPat{Types: []string{"X"}, Props: mapX("w", lit(1))}, nP("b"))),
		cr(vs("x"), vs("z"), part(nP("x"), R("", "X"), nP("x")), part(nP("z"), R("", "Y"), nP("x"))),
		st(vs("a"), set("prop", "a", "p", lit(2))),
		st(vs("a", "b"), set("prop", "a", "p", prop("b", "p")), set("prop", "b", "q", prop("a", "p"))),
		st(vs("x", "a"), set("prop", "x", "q", plus(prop("a", "p"), lit(1))), set("label", "x", "", nil, "D")),
		st(vs("a"), set("label", "a", "", nil, "C", "B"), set("+=", "a", "", mapX("q", lit(1), "p", lit(nil)))),
		st(vs("a"), set("=", "a", "", mapX("r", prop("a", "p")))),
		st(vs("x"), set("+=", "x", "", mapX("p", lit(5)))),
		rm(vs("a"), ref.RemoveItem{Var: "a", Key: "p"}, ref.RemoveItem{Var: "a", Labels: []string{"A"}}),
		rm(vs("x"), ref.RemoveItem{Var: "x", Labels: []string{"A", "B"}}),
		dl(false, "e"), dl(true, "a"), dl(false, "b"), dl(true, "x"), dl(false, "a"), dl(false, "e", "f"), dl(true, "b", "x"),
		mg(nil, vs("x"), nodePart(np("x", mapX("p", lit(1)), "A"))),
		mg(vs("a"), vs("x", "f"), part(nP("a"), R("f", "X"), nP("x", "B"))),
		mg(vs("a", "b"), vs("f"), part(nP("a"), R("f", "Y"), nP("b"))),
		mg(nil, vs("y"), nodePart(np("y", mapX("p", lit(2)), "A")), on(true, set("prop", "y", "q", lit(1))), on(false, set("prop", "y", "q", plus(prop("y", "p"), lit(1))), set("label", "y", "", nil, "M"))),
		mg(vs("x"), vs("y"), part(nP("x"), ref.RelPat{Types: []string{"X"}, Dir: ref.Left}, nP("y"))),
		mg(vs("a"), vs("y"), part(nP("a"), R("", "X"), np("y", mapX("p", prop("a", "p")))), on(true, set("prop", "a", "q", lit(7)))),
	}
}

// combos runs sequences of updates with one of the given kind
func combos(r *mc.Run, kind string) {
	reads := [][]ref.Match{
		nil,
		reads1(nodePart(nP("a"))),
		reads1(nodePart(nP("a", "A")), nodePart(nP("b", "B"))),
		reads1(part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}}, nP("b"))),
		reads1(part(nP("a"), ref.RelPat{Var: "e", Dir: ref.Both}, nP("b"))),
		{{Parts: []ref.Part{nodePart(nP("a"))}, Where: cmp(prop("a", "p"), ">=", lit(1))}},
		{{Parts: []ref.Part{nodePart(nP("a", "A"))}}, {Optional: true, Parts: []ref.Part{part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}}, nP("b"))}, Where: ref.IsNull{E: prop("b", "q")}}},
	}
	nk := []nodeKind{{labels: []string{"A"}, props: ref.Map{"p": 1}}, {labels: []string{"B"}}, {labels: []string{"A", "B"}, props: ref.Map{"p": 2, "q": 3}}}
	ek := []edgeKind{{typ: "X"}, {typ: "Y", props: ref.Map{"w": 1}}}
	gs := append(graphsOf(0, 2, nk, 1, ek), graphsOf(2, 2, nk[1:], 2, ek)...)
	if !r.Thorough {
		// Every third of those with two relationships
		var keep []*ref.Graph
		for i, g := range gs {
			if len(g.Edges) < 2 || i%3 == 0 {
				keep = append(keep, g)
			}
		}
		gs = keep
	}
	r.Note("graphs_for_combinations", int64(len(gs)))
	al := updateAlphabet()
	depth := 2
	if r.Thorough {
		depth = 3
	}
	// In these graphs, the newest node is one that nothing matches: nodes
	// can be created after others are deleted
	var guarded []*ref.Graph
	for _, g := range gs {
		h := g.Clone()
		h.AddNode([]string{"Z"}, nil)
		guarded = append(guarded, h)
	}
	type job struct {
		q       ref.Query
		guarded bool
	}
	var jobs []job
	for ri, rd := range reads {
		bound := map[string]bool{}
		for _, v := range ref.PartVars(allParts(rd)) {
			bound[v] = true
		}
		var rec func(us []namedUpdate, bound map[string]bool)
		rec = func(us []namedUpdate, bound map[string]bool) {
			if len(us) > 1 {
				late := false
				for i, u := range us {
					for _, v := range us[:i] {
						late = late || v.kind == "delete" && v.needs[0] != "e" && (u.kind == "create" || u.kind == "merge")
					}
				}
				has, deletes := false, false
				var list []ref.Update
				for _, u := range us {
					has = has || u.kind == kind
					deletes = deletes || u.kind == "delete"
					list = append(list, u.u)
				}
				if has {
					rets := []*ref.Return{nil, retItems(lit(1))}
					if !deletes {
						rt := &ref.Return{}
						for _, v := range []string{"a", "b", "e", "f", "x", "y", "z"} {
							if bound[v] {
								rt.Items = append(rt.Items, ref.Item{E: ref.Var(v), As: v})
								if v != "e" && v != "f" {
									rt.Items = append(rt.Items, ref.Item{E: prop(v, "p"), As: v + "p"})
								}
							}
						}
						rets[1] = rt
						if len(rt.Items) == 0 {
							rets = rets[:1]
						}
					}
					for _, rt := range rets {
						jobs = append(jobs, job{ref.Q(rd, list, rt), late})
					}
				}
			}
			if len(us) == depth {
				return
			}
			// lpg v2.0.0 loses nodes created after the removal of the newest
			// node (known finding of C18): nothing is created after new nodes
			// are deleted or reading clauses that can match the newest one
			gone := false
			for _, u := range us {
				if u.kind == "delete" && u.needs[0] != "e" {
					gone = gone || ri == 1
					for _, v := range u.needs {
						gone = gone || v == "x"
					}
				}
			}
			for _, u := range al {
				ok := true
				for _, v := range u.needs {
					ok = ok && bound[v]
				}
				if !ok || gone && (u.kind == "create" || u.kind == "merge") {
					continue
				}
				nb := map[string]bool{}
				for v := range bound {
					nb[v] = true
				}
				for _, v := range u.sets {
					nb[v] = true
				}
				rec(append(us[:len(us):len(us)], u), nb)
			}
		}
		rec(nil, bound)
	}
	r.Note("combinations", int64(len(jobs)))
	r.Par(len(jobs), func(w *mc.W, i int) {
		if jobs[i].guarded {
			runOnAll(w, fmt.Sprintf("%d graphs of 0..2 nodes and another", len(gs)), guarded, jobs[i].q, one1, qopts{})
			return
		}
		runOnAll(w, fmt.Sprintf("%d graphs of 0..2 nodes", len(gs)), gs, jobs[i].q, one1, qopts{})
	})
}
