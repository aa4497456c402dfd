package checks

import (
	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C14", Level: "model_checking",
		Bounds: "all sequences of up to 2 (thorough 3) items of the alphabet of SET and REMOVE items, in one clause or several, after every reading clause of the alphabet, on all graphs up to isomorphism with up to 2 nodes (thorough 3) of the listed kinds and a relationship, with and without a property filter; every order of rows is accepted, but the same for all rows; all sequences of two (thorough three) updating clauses with one of this kind, after each of seven reading clauses; 11 ways for nodes, relationships and parameters to have the same map × the map that is changed × one or two of 7 changes of its entries" + sizeBounds + objectBounds,
		Assume: []string{"setting properties of relationships is not checked", "a variable is not null in SET"},
		Fn:     runC14,
	})
}

func runC14(r *mc.Run) {
	sizesC14(r)
	sharedMaps(r)
	combos(r, "set")
	kinds := []nodeKind{{}, {labels: []string{"A"}, props: ref.Map{"p": 1}}, {labels: []string{"A", "B"}, props: ref.Map{"p": 2, "q": "x"}}, {props: ref.Map{"q": 3}}}
	X := []edgeKind{{typ: "X"}}
	gs := append(graphsOf(0, 2, kinds, 0, X), graphsOf(2, 2, kinds[:3], 1, X)...)
	gs3 := graphsOf(3, 3, kinds[1:3], 0, X)
	r.Note("graphs", int64(len(gs)+len(gs3)))
	set := func(kind, v, k string, e ref.Expr, labels ...string) ref.SetItem {
		return ref.SetItem{Kind: kind, Var: v, Key: k, E: e, Labels: labels}
	}
	mp := func(kv ...interface{}) ref.MapX {
		m := ref.MapX{}
		for i := 0; i < len(kv); i += 2 {
			m = append(m, ref.KV{K: kv[i].(string), E: kv[i+1].(ref.Expr)})
		}
		return m
	}
	plus := func(a, b ref.Expr) ref.Expr { return ref.Bin{Op: "+", A: a, B: b} }
	np, nq := prop("n", "p"), prop("n", "q")
	type upd interface{}
	one := []upd{
		set("prop", "n", "p", lit(1)), set("prop", "n", "p", lit(nil)), set("prop", "n", "p", nq), set("prop", "n", "q", plus(np, lit(1))), set("prop", "n", "q", lit(ref.List{1, "a"})), set("prop", "n", "a b", lit(true)),
		set("prop", "n", "p", ref.Param("v")), set("prop", "n", "p", ref.Param("zz")), set("prop", "n", "p", ref.Param("d")),
		set("prop", "n", "p", ref.Bin{Op: "/", A: lit(1), B: lit(0)}), set("prop", "n", "p", ref.ListX{np, nq}), set("prop", "n", "q", ref.Case{When: []ref.Expr{ref.IsNull{E: np}}, Then: []ref.Expr{lit(0)}, Else: plus(np, np)}),
		set("=", "n", "", mp()), set("=", "n", "", mp("p", lit(5))), set("=", "n", "", mp("q", np, "p", nq)), set("=", "n", "", mp("p", lit(nil), "r", lit(2.5))), set("=", "n", "", ref.Var("n")), set("=", "n", "", ref.Param("m")), set("=", "n", "", lit(5)),
		set("+=", "n", "", mp()), set("+=", "n", "", mp("p", lit(5), "q", lit(nil))), set("+=", "n", "", mp("r", np, "p", lit(6))), set("+=", "n", "", ref.Var("n")), set("+=", "n", "", ref.Param("m")), set("+=", "n", "", lit("s")),
		set("label", "n", "", nil, "L"), set("label", "n", "", nil, "A"), set("label", "n", "", nil, "A", "M"), set("label", "n", "", nil, "a b"), set("label", "zz", "", nil, "L"), set("prop", "zz", "p", lit(1)), set("+=", "zz", "", mp()),
		ref.RemoveItem{Var: "n", Key: "p"}, ref.RemoveItem{Var: "n", Key: "r"}, ref.RemoveItem{Var: "n", Key: "a b"}, ref.RemoveItem{Var: "n", Labels: []string{"A"}}, ref.RemoveItem{Var: "n", Labels: []string{"L"}}, ref.RemoveItem{Var: "n", Labels: []string{"A", "B"}}, ref.RemoveItem{Var: "n", Labels: []string{"B", "C"}}, ref.RemoveItem{Var: "zz", Key: "p"},
	}
	two := []upd{
		set("prop", "n", "p", prop("m", "p")), set("prop", "n", "p", plus(np, prop("m", "p"))), set("prop", "m", "q", np), set("=", "n", "", ref.Var("m")), set("+=", "n", "", ref.Var("m")), set("+=", "m", "", mp("p", np)), set("label", "m", "", nil, "L"),
		ref.RemoveItem{Var: "m", Key: "p"}, ref.RemoveItem{Var: "m", Labels: []string{"A"}}, set("prop", "n", "p", lit(7)), set("prop", "n", "q", plus(np, lit(1))), set("label", "n", "", nil, "M"), ref.RemoveItem{Var: "n", Key: "q"},
	}
	reads1 := [][]ref.Match{
		{{Parts: []ref.Part{nodePart(nP("n"))}}},
		{{Parts: []ref.Part{nodePart(nP("n", "A"))}}},
		{{Parts: []ref.Part{nodePart(nP("n"))}, Where: cmp(np, "=", lit(1))}},
		{{Parts: []ref.Part{nodePart(nP("n")), nodePart(nP("k"))}}},
	}
	reads2 := [][]ref.Match{
		{{Parts: []ref.Part{nodePart(nP("n")), nodePart(nP("m"))}}},
		{{Parts: []ref.Part{part(nP("n"), ref.RelPat{}, nP("m"))}}},
		{{Parts: []ref.Part{part(nP("n"), ref.RelPat{Dir: ref.Both}, nP("m"))}}},
		{{Parts: []ref.Part{nodePart(nP("n"))}}, {Optional: true, Parts: []ref.Part{nodePart(nP("m", "B"))}}},
		{{Parts: []ref.Part{nodePart(nP("n", "A"))}}, {Parts: []ref.Part{nodePart(nP("m"))}, Where: cmp(prop("m", "p"), ">=", np)}},
	}
	// group makes clauses of items: items of the same kind are one clause
	// if joined
	group := func(items []upd, joined bool) []ref.Update {
		var out []ref.Update
		for i := 0; i < len(items); {
			j := i + 1
			switch items[i].(type) {
			case ref.SetItem:
				s := ref.Set{}
				for j = i; j < len(items); j++ {
					x, ok := items[j].(ref.SetItem)
					if !ok || j > i && !joined {
						break
					}
					s.Items = append(s.Items, x)
				}
				out = append(out, s)
			case ref.RemoveItem:
				s := ref.Remove{}
				for j = i; j < len(items); j++ {
					x, ok := items[j].(ref.RemoveItem)
					if !ok || j > i && !joined {
						break
					}
					s.Items = append(s.Items, x)
				}
				out = append(out, s)
			}
			i = j
		}
		return out
	}
	type job struct {
		q ref.Query
		f bool
		g []*ref.Graph
	}
	var qs []job
	add := func(reads []ref.Match, items []upd, filter bool, g []*ref.Graph) {
		// Matching again would not see the rows of the query
		vars := varsReturn(allParts(reads)...)
		qs = append(qs, job{ref.Q(reads, group(items, true), vars), filter, g})
		if len(items) > 1 {
			if len(group(items, true)) != len(group(items, false)) {
				qs = append(qs, job{ref.Q(reads, group(items, false), nil), filter, g})
			}
		}
	}
	props := func(vars ...string) *ref.Return {
		rt := &ref.Return{}
		for _, v := range vars {
			rt.Items = append(rt.Items, ref.Item{E: prop(v, "p"), As: v + "p"}, ref.Item{E: prop(v, "q"), As: v + "q"}, ref.Item{E: ref.Call{F: "size", Args: []ref.Expr{ref.Call{F: "labels", Args: []ref.Expr{ref.Var(v)}}}}, As: v + "l"})
		}
		return rt
	}
	for ri, rd := range reads1 {
		for _, a := range one {
			add(rd, []upd{a}, false, gs)
			add(rd, []upd{a}, true, gs)
			qs = append(qs, job{ref.Q(rd, group([]upd{a}, true), props("n")), true, gs})
			if ri > 0 && !r.Thorough {
				continue
			}
			for bi, b := range one {
				add(rd, []upd{a, b}, bi%3 == 0, gs)
				if r.Thorough && ri == 0 {
					for ci, c := range one {
						if ci%4 == 0 {
							add(rd, []upd{a, b, c}, false, gs)
						}
					}
				}
			}
		}
	}
	for _, rd := range reads2 {
		for _, a := range two {
			add(rd, []upd{a}, false, gs)
			qs = append(qs, job{ref.Q(rd, group([]upd{a}, true), props("n", "m")), false, gs})
			for bi, b := range two {
				add(rd, []upd{a, b}, bi%2 == 0, gs)
				if r.Thorough {
					for _, c := range two {
						add(rd, []upd{a, b, c}, false, gs)
					}
				}
			}
		}
	}
	for _, a := range one {
		add(reads1[0], []upd{a}, false, gs3)
		for _, b := range one {
			if r.Thorough {
				add(reads1[0], []upd{a, b}, true, gs3)
			}
		}
	}
	r.Note("queries", int64(len(qs)))
	params := map[string]ref.V{"v": "pv", "d": ref.Date{Y: 2020, M: 2, D: 29}, "m": ref.Map{"p": 3, "q": nil, "r": "t"}, "n": nil}
	filter := func(k string, v ref.V) ref.V {
		if k == "p" || k == "r" {
			return ref.List{"filtered", v}
		}
		return v
	}
	r.Par(len(qs), func(w *mc.W, i int) {
		o := qopts{params: params}
		fam := "all graphs of 0..2 nodes"
		if len(qs[i].g) == len(gs3) {
			fam = "all graphs of 3 nodes"
		}
		if qs[i].f {
			o.filter = filter
			fam += " with a property filter"
		}
		runOnAll(w, fam, qs[i].g, qs[i].q, fewOrders, o)
	})
}
