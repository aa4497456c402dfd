package checks

import (
	"fmt"

	"verif/harness/mc"
	"verif/harness/ref"
)

// shape is a graph that is larger than those enumerated completely
type shape struct {
	name string
	g    *ref.Graph
}

// shapes gives chains, cycles, stars, trees, parallel relationships and
// complete graphs of every size up to n
func shapes(n int) []shape {
	var out []shape
	mk := func(name string, size int, edges [][2]int) {
		g := ref.NewGraph()
		for i := 0; i < size; i++ {
			var l []string
			if i == 0 {
				l = append(l, "S")
			}
			if i == size-1 {
				l = append(l, "T")
			}
			if i%2 == 1 {
				l = append(l, "O")
			}
			g.AddNode(l, ref.Map{"k": i})
		}
		for i, e := range edges {
			t := "X"
			if i%3 == 2 {
				t = "Y"
			}
			g.AddEdge(ref.NodeID(e[0]), ref.NodeID(e[1]), t, ref.Map{"w": i % 2})
		}
		out = append(out, shape{name, g})
	}
	for k := 4; k <= n; k++ {
		var chain, back, zig, cyc, star, in, tree, par [][2]int
		for i := 0; i+1 < k; i++ {
			chain = append(chain, [2]int{i, i + 1})
			back = append(back, [2]int{i + 1, i})
			if i%2 == 0 {
				zig = append(zig, [2]int{i, i + 1})
			} else {
				zig = append(zig, [2]int{i + 1, i})
			}
			star = append(star, [2]int{0, i + 1})
			in = append(in, [2]int{i + 1, 0})
			tree = append(tree, [2]int{i / 2, i + 1})
			par = append(par, [2]int{i % 2, 1 - i%2})
		}
		cyc = append(append(cyc, chain...), [2]int{k - 1, 0})
		mk(fmt.Sprintf("chain of %d", k), k, chain)
		mk(fmt.Sprintf("backward chain of %d", k), k, back)
		mk(fmt.Sprintf("zigzag of %d", k), k, zig)
		mk(fmt.Sprintf("cycle of %d", k), k, cyc)
		mk(fmt.Sprintf("star of %d", k), k, star)
		mk(fmt.Sprintf("inward star of %d", k), k, in)
		mk(fmt.Sprintf("tree of %d", k), k, tree)
		if k <= 6 {
			mk(fmt.Sprintf("%d parallel relationships", k), 2, par[:k-1])
			loops := append([][2]int{{0, 0}, {0, 0}}, chain...)
			mk(fmt.Sprintf("chain of %d with loops", k), k, loops)
		}
		if k == 4 {
			var full [][2]int
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					if i != j {
						full = append(full, [2]int{i, j})
					}
				}
			}
			mk("complete graph of 3", 3, full)
			mk("two chains", 6, [][2]int{{0, 1}, {1, 2}, {3, 4}, {4, 5}})
			mk("diamonds", 7, [][2]int{{0, 1}, {0, 2}, {1, 3}, {2, 3}, {3, 4}, {3, 5}, {4, 6}, {5, 6}})
		}
	}
	return out
}

// runShapes matches ranges of every length in the larger graphs
func runShapes(r *mc.Run) {
	n := 8
	if r.Thorough {
		n = 11
	}
	sh := shapes(n)
	var gs []*ref.Graph
	for _, s := range sh {
		gs = append(gs, s.g)
	}
	r.Note("shapes", int64(len(gs)))
	var rng []string
	rng = append(rng, "", "*")
	for a := 1; a <= 7; a++ {
		rng = append(rng, fmt.Sprintf("*%d", a), fmt.Sprintf("*%d..", a), fmt.Sprintf("*..%d", a))
		for b := a; b <= 9; b++ {
			if b <= a+2 || b == 9 {
				rng = append(rng, fmt.Sprintf("*%d..%d", a, b))
			}
		}
	}
	rng = append(rng, "*2..1", "*5..3", "*10", "*10..", "*..20", "*3..100")
	var pats []ref.Part
	for d := ref.Right; d <= ref.Both; d++ {
		for _, rg := range rng {
			for m := 0; m < 4; m++ {
				a, b := ref.NodePat{Var: "a"}, ref.NodePat{Var: "b"}
				if m&1 != 0 {
					a.Labels = []string{"S"}
				}
				if m&2 != 0 {
					b.Labels = []string{"T"}
				}
				pats = append(pats, ref.Part{Nodes: []ref.NodePat{a, b}, Rels: []ref.RelPat{{Var: "e", Dir: d, Rng: rg}}})
			}
			pats = append(pats, ref.Part{Nodes: []ref.NodePat{{Var: "a"}, {Var: "b", Props: ref.MapX{{K: "k", E: ref.Lit{V: 2}}}}}, Rels: []ref.RelPat{{Var: "e", Dir: d, Rng: rg}}})
			pats = append(pats, ref.Part{Nodes: []ref.NodePat{{Var: "a"}, {Var: "a"}}, Rels: []ref.RelPat{{Var: "e", Dir: d, Rng: rg}}})
			pats = append(pats, ref.Part{Nodes: []ref.NodePat{{Var: "a", Labels: []string{"O"}}, {}}, Rels: []ref.RelPat{{Var: "e", Types: []string{"X"}, Dir: d, Rng: rg}}})
		}
	}
	// Long fixed chains, with the directions in every order
	for n := 3; n <= 5; n++ {
		dirs := make([]ref.Dir, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				for _, mode := range []int{0, 1, 2} {
					p := ref.Part{}
					for k := 0; k <= n; k++ {
						np := ref.NodePat{Var: fmt.Sprint("v", k)}
						if mode == 1 && k == n/2 {
							np.Labels = []string{"T"}
						}
						if mode == 2 && k == n {
							np.Var = "v0"
						}
						p.Nodes = append(p.Nodes, np)
						if k < n {
							p.Rels = append(p.Rels, ref.RelPat{Var: fmt.Sprint("r", k), Dir: dirs[k]})
						}
					}
					pats = append(pats, p)
				}
				return
			}
			for d := ref.Right; d <= ref.Both; d++ {
				if n > 3 && d == ref.Both && i > 0 {
					continue
				}
				dirs[i] = d
				rec(i + 1)
			}
		}
		rec(0)
	}
	r.Note("shape_patterns", int64(len(pats)))
	r.Par(len(pats), func(w *mc.W, i int) {
		orders := one1
		if r.Thorough {
			orders = fewOrders
		}
		runOnAll(w, fmt.Sprintf("chains, cycles, stars, trees and others of up to %d nodes", n), gs, matchQ(pats[i]), orders, qopts{})
	})
}
