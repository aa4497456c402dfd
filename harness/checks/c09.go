package checks

import (
	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C09", Level: "model_checking",
		Bounds: "all graphs up to isomorphism with up to 3 (thorough 4) nodes and 3 (4) relationships, in all creation orders, for all chain patterns of up to 2 (3) relationships with every direction, 8 length ranges and every identification of their node variables; graphs with labels and types, and graphs with properties, for all patterns over these; chains, cycles, stars, trees and others of every size up to 8 (11) nodes, for all length ranges with bounds up to 9 and fixed chains of up to 5 relationships" + sizeBounds + objectBounds,
		Assume: []string{"relationships may repeat between the elements of one pattern (matching is homomorphic) but not within a variable length relationship, which is at least one relationship long", "'*0' ranges and a null property in a pattern are not checked; integers and floats of equal value are not mixed in property patterns"},
		Fn:     runC09,
	})
}

// nodeVars are the ways of naming the nodes of a chain
func nodeVars(n int) [][]string {
	names := []string{"a", "b", "c", "d"}
	var out [][]string
	var rec func(cur []string, used int)
	rec = func(cur []string, used int) {
		if len(cur) == n {
			out = append(out, append([]string{}, cur...))
			return
		}
		for i := 0; i <= used && i < len(names); i++ {
			u := used
			if i == used {
				u++
			}
			rec(append(cur, names[i]), u)
		}
	}
	rec(nil, 0)
	return out
}

var rngs = []string{"", "*", "*1..1", "*1..2", "*2", "*2..", "*..2", "*3"}

func starReturn() *ref.Return { return &ref.Return{Star: true} }

func varsReturn(parts ...ref.Part) *ref.Return {
	r := &ref.Return{}
	for _, v := range ref.PartVars(parts) {
		r.Items = append(r.Items, ref.Item{E: ref.Var(v), As: v})
	}
	if len(r.Items) == 0 {
		r.Items = []ref.Item{{E: ref.Lit{V: 1}}}
	}
	return r
}

func matchQ(p ref.Part) ref.Query {
	return ref.Q([]ref.Match{{Parts: []ref.Part{p}}}, nil, varsReturn(p))
}

// chains enumerates patterns with n relationships
func chains(n int, rng []string, vars [][]string, relNames bool) []ref.Part {
	var out []ref.Part
	var rec func(rels []ref.RelPat)
	rec = func(rels []ref.RelPat) {
		if len(rels) == n {
			for _, v := range vars {
				p := ref.Part{Rels: append([]ref.RelPat{}, rels...)}
				for _, x := range v {
					p.Nodes = append(p.Nodes, ref.NodePat{Var: x})
				}
				out = append(out, p)
			}
			return
		}
		for d := ref.Right; d <= ref.Both; d++ {
			for _, r := range rng {
				x := ref.RelPat{Dir: d, Rng: r}
				if relNames {
					x.Var = []string{"e", "f", "g"}[len(rels)]
				}
				rec(append(rels[:len(rels):len(rels)], x))
			}
		}
	}
	rec(nil)
	return out
}

func runC09(r *mc.Run) {
	sizesC09(r)
	// Structure
	plain := []nodeKind{{}}
	X := []edgeKind{{typ: "X"}}
	gs := graphsOf(0, 3, plain, 3, X)
	r.Note("structure_graphs", int64(len(gs)))
	var pats []ref.Part
	for n := 0; n <= 1; n++ {
		pats = append(pats, chains(n, rngs, nodeVars(n+1), true)...)
	}
	if r.Thorough {
		pats = append(pats, chains(2, rngs, nodeVars(3), true)...)
	} else {
		pats = append(pats, chains(2, []string{"", "*", "*1..2", "*2"}, nodeVars(3), true)...)
	}
	// Unnamed elements, and some elements named
	for n := 1; n <= 2; n++ {
		var vs [][]string
		for _, v := range [][]string{{"", "", ""}, {"a", "", ""}, {"", "a", ""}, {"", "", "a"}, {"a", "", "a"}, {"a", "", "b"}} {
			vs = append(vs, v[:n+1])
		}
		few := []string{"", "*", "*1..2"}
		pats = append(pats, chains(n, few, vs, false)...)
		if n == 1 {
			pats = append(pats, chains(n, few, vs, true)...)
		}
	}
	// A repeated relationship variable
	for d1 := ref.Right; d1 <= ref.Both; d1++ {
		for d2 := ref.Right; d2 <= ref.Both; d2++ {
			for _, rg := range []string{"", "*1..2"} {
				for _, v := range nodeVars(3) {
					p := ref.Part{Rels: []ref.RelPat{{Var: "e", Dir: d1, Rng: rg}, {Var: "e", Dir: d2, Rng: rg}}}
					for _, x := range v {
						p.Nodes = append(p.Nodes, ref.NodePat{Var: x})
					}
					pats = append(pats, p)
				}
			}
		}
	}
	r.Note("structure_patterns", int64(len(pats)))
	r.Par(len(pats), func(w *mc.W, i int) {
		orders := fewOrders
		if r.Thorough || len(pats[i].Rels) < 2 || pats[i].Rels[0].Rng == "" && pats[i].Rels[1].Rng == "" {
			orders = allOrders
		}
		runOnAll(w, "all graphs of 0..3 nodes and 0..3 relationships", gs, matchQ(pats[i]), orders, qopts{})
	})
	// Labels and types
	lk := []nodeKind{{}, {labels: []string{"A"}}, {labels: []string{"B"}}, {labels: []string{"A", "B"}}}
	tk := []edgeKind{{typ: "X"}, {typ: "Y"}, {typ: "Z"}}
	lg := graphsOf(1, 2, lk, 2, tk)
	lg3 := graphsOf(3, 3, lk[:2], 2, tk[:2])
	r.Note("label_graphs", int64(len(lg)+len(lg3)))
	labs := [][]string{nil, {"A"}, {"B"}, {"A", "B"}, {"C"}}
	typs := [][]string{nil, {"X"}, {"X", "Y"}, {"Y", "Z"}, {"W"}}
	var lp []ref.Part
	for _, l1 := range labs {
		lp = append(lp, ref.Part{Nodes: []ref.NodePat{{Var: "a", Labels: l1}}})
		for _, l2 := range labs {
			for _, t := range typs {
				for d := ref.Right; d <= ref.Both; d++ {
					for _, rg := range []string{"", "*1..2"} {
						lp = append(lp, ref.Part{Nodes: []ref.NodePat{{Var: "a", Labels: l1}, {Var: "b", Labels: l2}}, Rels: []ref.RelPat{{Var: "e", Types: t, Dir: d, Rng: rg}}})
					}
				}
			}
		}
	}
	r.Par(len(lp), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 1..2 nodes and 0..2 relationships over 2 labels and 3 types", lg, matchQ(lp[i]), allOrders, qopts{})
	})
	var lp2 []ref.Part
	ls, ts := [][]string{nil, {"A"}}, [][]string{nil, {"X"}}
	for d1 := ref.Right; d1 <= ref.Both; d1++ {
		for d2 := ref.Right; d2 <= ref.Both; d2++ {
			for m := 0; m < 32; m++ {
				p := ref.Part{Nodes: []ref.NodePat{{Var: "a", Labels: ls[m&1]}, {Var: "b", Labels: ls[m>>1&1]}, {Var: "c", Labels: ls[m>>2&1]}},
					Rels: []ref.RelPat{{Var: "e", Types: ts[m>>3&1], Dir: d1}, {Var: "f", Types: ts[m>>4&1], Dir: d2}}}
				lp2 = append(lp2, p)
				for _, rr := range [][2]string{{"*", ""}, {"", "*"}, {"*1..2", "*2.."}} {
					q := p
					q.Rels = append([]ref.RelPat{}, p.Rels...)
					q.Rels[0].Rng, q.Rels[1].Rng = rr[0], rr[1]
					lp2 = append(lp2, q)
				}
			}
		}
	}
	r.Par(len(lp2), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 3 nodes and 0..2 relationships over a label and 2 types", lg3, matchQ(lp2[i]), fewOrders, qopts{})
	})
	// Labels repeated on one variable, and constraints given on a later
	// occurrence of a variable
	var rp []ref.Part
	for _, l1 := range labs[:3] {
		for _, l2 := range labs[:3] {
			for _, l3 := range labs[:3] {
				for d := ref.Right; d <= ref.Both; d++ {
					rp = append(rp, ref.Part{Nodes: []ref.NodePat{{Var: "a", Labels: l1}, {Var: "b", Labels: l2}, {Var: "a", Labels: l3}}, Rels: []ref.RelPat{{Dir: d}, {Dir: ref.Both}}})
					rp = append(rp, ref.Part{Nodes: []ref.NodePat{{Var: "a", Labels: l1}, {Var: "a", Labels: l2}, {Var: "b", Labels: l3}}, Rels: []ref.RelPat{{Var: "e", Dir: d}, {Var: "f", Dir: ref.Right}}})
				}
			}
		}
	}
	r.Par(len(rp), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 1..2 nodes and 0..2 relationships over 2 labels and 3 types", lg, matchQ(rp[i]), fewOrders, qopts{})
	})
	// Properties
	vals := []ref.V{1, 2, "x", true, 2.5, ref.List{1}}
	pk := []nodeKind{{}}
	qk := []edgeKind{{typ: "X"}}
	for _, v := range vals {
		pk = append(pk, nodeKind{props: ref.Map{"p": v}})
	}
	pk = append(pk, nodeKind{props: ref.Map{"p": 1, "q": 1}}, nodeKind{props: ref.Map{"q": 1}}, nodeKind{labels: []string{"A"}, props: ref.Map{"p": 1}})
	for _, v := range []ref.V{1, 2, "x", true} {
		qk = append(qk, edgeKind{typ: "X", props: ref.Map{"p": v}})
	}
	pg := append(graphsOf(1, 2, pk, 1, qk[:2]), graphsOf(2, 2, pk[:2], 2, qk)...)
	r.Note("property_graphs", int64(len(pg)))
	props := []ref.Expr{nil, ref.MapX{}, ref.Param("m")}
	for _, v := range append(vals, "y", false, 3, ref.List{}, ref.List{2}) {
		props = append(props, ref.MapX{{K: "p", E: ref.Lit{V: v}}})
	}
	props = append(props, ref.MapX{{K: "p", E: ref.Lit{V: 1}}, {K: "q", E: ref.Lit{V: 1}}}, ref.MapX{{K: "p", E: ref.Param("v")}}, ref.MapX{{K: "r", E: ref.Lit{V: 1}}}, ref.MapX{{K: "p", E: ref.Bin{Op: "+", A: ref.Lit{V: 1}, B: ref.Param("v")}}})
	var pp []ref.Part
	for _, p1 := range props {
		pp = append(pp, ref.Part{Nodes: []ref.NodePat{{Var: "a", Props: p1}}}, ref.Part{Nodes: []ref.NodePat{{Var: "a", Labels: []string{"A"}, Props: p1}}})
		for d := ref.Right; d <= ref.Both; d++ {
			for _, rg := range []string{"", "*", "*1..2"} {
				pp = append(pp, ref.Part{Nodes: []ref.NodePat{{Var: "a"}, {Var: "b"}}, Rels: []ref.RelPat{{Var: "e", Dir: d, Rng: rg, Props: p1}}})
				pp = append(pp, ref.Part{Nodes: []ref.NodePat{{}, {}}, Rels: []ref.RelPat{{Dir: d, Rng: rg, Props: p1}}})
			}
			pp = append(pp, ref.Part{Nodes: []ref.NodePat{{Var: "a", Props: p1}, {Var: "b"}}, Rels: []ref.RelPat{{Dir: d}}})
			pp = append(pp, ref.Part{Nodes: []ref.NodePat{{Var: "a"}, {Var: "b", Props: p1}}, Rels: []ref.RelPat{{Dir: d}}})
			pp = append(pp, ref.Part{Nodes: []ref.NodePat{{Var: "a", Props: p1}, {Var: "a", Props: props[3]}}, Rels: []ref.RelPat{{Dir: d}}})
		}
	}
	r.Par(len(pp), func(w *mc.W, i int) {
		for _, m := range []ref.Map{{"p": 1}, {"p": "x", "q": 1}} {
			runOnAll(w, "all graphs of 1..2 nodes and 0..2 relationships with properties", pg, matchQ(pp[i]), fewOrders, qopts{params: map[string]ref.V{"m": m, "v": m["p"]}})
			if pp[i].Str() != "" && !usesParams(pp[i]) {
				break
			}
		}
	})
	propertyKinds(r)
	twoArrows(r, gs)
	oneDiffers(r)
	// The names that RETURN * gives: those of the query and no others
	var star []ref.Part
	for _, p1 := range props {
		for _, rg := range []string{"", "*"} {
			star = append(star, ref.Part{Nodes: []ref.NodePat{{Var: "a"}, {Props: p1}}, Rels: []ref.RelPat{{Rng: rg}}},
				ref.Part{Nodes: []ref.NodePat{{Props: p1}, {Var: "b"}}, Rels: []ref.RelPat{{Rng: rg, Dir: ref.Left, Props: props[3]}}},
				ref.Part{Nodes: []ref.NodePat{{}, {Props: props[3]}}, Rels: []ref.RelPat{{Var: "e", Rng: rg, Props: p1, Dir: ref.Both}}},
				ref.Part{Nodes: []ref.NodePat{{Props: p1}, {Var: "b"}}, Rels: []ref.RelPat{{Rng: rg, Props: p1}}})
		}
	}
	r.Par(len(star), func(w *mc.W, i int) {
		for _, q := range []ref.Query{ref.Q([]ref.Match{{Parts: []ref.Part{star[i]}}}, nil, &ref.Return{Star: true}),
			ref.Q([]ref.Match{{Parts: []ref.Part{nodePart(nP("c"))}}, {Optional: true, Parts: []ref.Part{star[i]}}}, nil, &ref.Return{Star: true})} {
			runOnAll(w, "graphs of 1..2 nodes and 0..1 relationships with properties", pg[:len(pg)/3], q, one1, qopts{params: map[string]ref.V{"m": ref.Map{"p": 1}, "v": 1}})
		}
	})
	runShapes(r)
	if !r.Thorough {
		return
	}
	// Larger structures
	g4 := graphsOf(4, 4, plain, 4, X)
	r.Note("structure_graphs", int64(len(g4)))
	r.Par(len(pats), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 4 nodes and 0..4 relationships", g4, matchQ(pats[i]), fewOrders, qopts{})
	})
	p3 := chains(3, []string{"", "*", "*2"}, nodeVars(4), true)
	r.Par(len(p3), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 0..3 nodes and 0..3 relationships", gs, matchQ(p3[i]), fewOrders, qopts{})
	})
}

func usesParams(p ref.Part) bool {
	for _, c := range p.Str() {
		if c == '$' {
			return true
		}
	}
	return false
}

// narrowed builds a graph with each Go type of numbers
func narrowed(g *ref.Graph) []sut.BuildOpts {
	out := []sut.BuildOpts{{}}
	for k := 0; k < 8; k++ {
		k := k
		out = append(out, sut.BuildOpts{Wrap: k == 4, Narrow: func(v interface{}) interface{} {
			switch x := v.(type) {
			case float64:
				if float64(float32(x)) == x {
					return float32(x)
				}
			case int:
				switch {
				case k == 0:
					return int8(x)
				case k == 1:
					return int16(x)
				case k == 2:
					return int32(x)
				case k == 3 || k == 4 || x < 0:
					return int64(x)
				case k == 5:
					return uint8(x)
				case k == 6:
					return uint16(x)
				}
				return uint32(x)
			}
			return v
		}})
	}
	return out
}

// propertyKinds matches all pairs of a value that the elements have, and
// a value that the pattern asks for, over all kinds of values
func propertyKinds(r *mc.Run) {
	vals := []ref.V{nil, 0, 1, 2, -1, 1.0, 2.5, -1.0, "", "1", "a", "true", true, false,
		ref.Date{Y: 2020, M: 1, D: 2}, ref.Date{Y: 2020, M: 1, D: 3},
		ref.Time{H: 1}, ref.Time{H: 1, N: 1}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 2}}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 2}, Time: ref.Time{S: 1}},
		ref.Dur{}, ref.Dur{D: 1}, ref.Dur{S: 86400}, ref.Dur{N: 1},
		ref.List{}, ref.List{1}, ref.List{1, 2}, ref.List{"a"}, ref.List{ref.List{1}}, ref.List{ref.Date{Y: 2020, M: 1, D: 2}},
		ref.Map{}, ref.Map{"k": 1}, ref.Map{"k": 1.0}, ref.Map{"k": 2}, ref.Map{"j": 1}, ref.Map{"k": ref.List{1}}, ref.List{ref.Map{"k": 1}}}
	v := ref.MapX{{K: "p", E: ref.Param("v")}}
	vq := ref.MapX{{K: "q", E: ref.Lit{V: 1}}, {K: "p", E: ref.Param("v")}}
	nodes := func(a, b ref.NodePat, rels ...ref.RelPat) ref.Part {
		return ref.Part{Nodes: []ref.NodePat{a, b}, Rels: rels}
	}
	parts := []ref.Part{
		nodePart(ref.NodePat{Var: "a", Props: v}),
		nodePart(ref.NodePat{Var: "a", Props: ref.Param("m")}),
		nodePart(ref.NodePat{Var: "a", Labels: []string{"A"}, Props: vq}),
		nodes(ref.NodePat{Var: "a", Props: v}, ref.NodePat{Var: "b"}, ref.RelPat{Var: "e"}),
		nodes(ref.NodePat{Var: "a"}, ref.NodePat{Var: "b", Props: v}, ref.RelPat{Var: "e"}),
		nodes(ref.NodePat{Var: "a", Props: v}, ref.NodePat{Var: "b", Props: v}, ref.RelPat{}),
		nodes(ref.NodePat{Var: "a"}, ref.NodePat{Var: "b"}, ref.RelPat{Var: "e", Props: v}),
		nodes(ref.NodePat{Var: "a"}, ref.NodePat{Var: "b"}, ref.RelPat{Props: v, Dir: ref.Both}),
		nodes(ref.NodePat{Var: "a"}, ref.NodePat{Var: "b"}, ref.RelPat{Var: "e", Rng: "*", Props: v}),
		nodes(ref.NodePat{Var: "a"}, ref.NodePat{Var: "b"}, ref.RelPat{Types: []string{"X"}, Rng: "*1..2", Props: vq}),
	}
	r.Par(len(vals)*len(parts), func(w *mc.W, i int) {
		asked, part := vals[i/len(parts)], parts[i%len(parts)]
		if asked == nil && i%len(parts) == 1 {
			return
		}
		var gs []*ref.Graph
		for _, has := range vals {
			mp := ref.Map{}
			if has != nil {
				mp["p"] = has
			}
			full := ref.Map{"q": 1}
			for k, x := range mp {
				full[k] = x
			}
			g := ref.NewGraph()
			x, y, z := g.AddNode([]string{"A"}, full), g.AddNode(nil, mp), g.AddNode(nil, nil)
			g.AddEdge(x, y, "X", full)
			g.AddEdge(y, z, "X", mp)
			g.AddEdge(z, x, "Y", nil)
			gs = append(gs, g)
		}
		runOnAll(w, "a triangle with properties of all kinds", gs, matchQ(part), narrowed, qopts{params: map[string]ref.V{"v": asked, "m": ref.Map{"p": asked}}})
	})
}

// twoArrows matches relationships that are written with an arrow at both
// ends: those of both directions
func twoArrows(r *mc.Run, gs []*ref.Graph) {
	var pats []ref.Part
	for n := 1; n <= 2; n++ {
		rg := rngs
		if n == 2 {
			rg = []string{"", "*"}
		}
		for _, p := range chains(n, rg, nodeVars(n+1), true) {
			q, any := p, false
			q.Rels = append([]ref.RelPat{}, p.Rels...)
			for i := range q.Rels {
				if q.Rels[i].Dir == ref.Both {
					q.Rels[i].Arrows, any = true, true
				}
			}
			if any {
				pats = append(pats, q)
				if n == 1 {
					b := q
					b.Rels = append([]ref.RelPat{}, q.Rels...)
					b.Rels[0].Var = ""
					pats = append(pats, b)
				}
			}
		}
	}
	r.Note("patterns_with_two_arrows", int64(len(pats)))
	r.Par(len(pats), func(w *mc.W, i int) {
		runOnAll(w, "all graphs of 0..3 nodes and 0..3 relationships", gs, matchQ(pats[i]), fewOrders, qopts{})
	})
}

// oneDiffers matches variable length relationships with properties on
// chains where one relationship, at any place, has another property, or
// another label, or none
func oneDiffers(r *mc.Run) {
	v := ref.MapX{{K: "p", E: ref.Param("v")}}
	vq := ref.MapX{{K: "p", E: ref.Param("v")}, {K: "q", E: ref.Lit{V: 1}}}
	var parts []ref.Part
	for _, rg := range []string{"*", "*1..3", "*3", "*4", "*5", "*2..", "*0.."} {
		for d := ref.Right; d <= ref.Both; d++ {
			for _, pr := range []ref.Expr{v, vq} {
				for _, name := range []string{"", "e"} {
					parts = append(parts, ref.Part{Nodes: []ref.NodePat{{Var: "a"}, {Var: "b"}}, Rels: []ref.RelPat{{Var: name, Types: []string{"X"}, Rng: rg, Dir: d, Props: pr}}})
				}
			}
		}
	}
	vals := []ref.V{1, 1.5, "s", true, ref.Dur{D: 1}, ref.List{1}}
	r.Par(len(parts)*len(vals), func(w *mc.W, i int) {
		part, val := parts[i/len(vals)], vals[i%len(vals)]
		var gs []*ref.Graph
		for at := -1; at < 5; at++ {
			for k := 0; k < 4; k++ {
				if at < 0 && k > 0 {
					continue
				}
				g := ref.NewGraph()
				prev := g.AddNode(nil, nil)
				for j := 0; j < 5; j++ {
					next := g.AddNode(nil, nil)
					props, typ := ref.Map{"p": val, "q": 1}, "X"
					if j == at {
						switch k {
						case 0:
							props["p"] = "other"
						case 1:
							delete(props, "p")
						case 2:
							typ = "Y"
						case 3:
							props["q"] = 2
						}
					}
					g.AddEdge(prev, next, typ, props)
					prev = next
				}
				gs = append(gs, g)
			}
		}
		runOnAll(w, "chains of 5 relationships of which one differs", gs, matchQ(part), fewOrders, qopts{params: map[string]ref.V{"v": val}})
	})
}
