package checks

import (
	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C18", Level: "model_checking",
		Bounds: "all sequences of up to 4 of 24 updating queries (creating, merging, setting, removing, deleting, and failing in the middle) from the empty graph and of up to 3 (thorough 4) from two others, and the graphs reached by up to 6 (thorough 9) of them up to isomorphism, with at most 4 (thorough 5) nodes and 5 (thorough 6) relationships: after every query the whole graph is compared with the reference, all listings of the real graph are compared with each other, and 22 queries look at it" + sizeBounds,
		Assume: []string{"once the newest node was deleted no more nodes are created (known finding: the node list of lpg loses them)", "what an updating query that fails has done before it fails is not specified, except that the graph is consistent"},
		Fn:     runC18,
	})
}

func histStarts() []start {
	g := ref.NewGraph()
	a := g.AddNode([]string{"A"}, ref.Map{"p": 1})
	b := g.AddNode([]string{"B"}, ref.Map{"p": 2})
	g.AddEdge(a, b, "X", ref.Map{"p": 1})
	g.AddEdge(a, b, "X", nil)
	g.AddEdge(b, a, "Y", nil)
	h := ref.NewGraph()
	c := h.AddNode(nil, nil)
	d := h.AddNode([]string{"A", "B"}, ref.Map{"p": 1})
	e := h.AddNode([]string{"A"}, nil)
	h.AddEdge(d, d, "X", nil)
	h.AddEdge(c, e, "Y", ref.Map{"p": 2})
	return []start{{ref.NewGraph(), ""}, {g, "from two nodes"}, {h, "from three nodes"}}
}

func runC18(r *mc.Run) {
	sizesC18(r)
	x := &explorer{r: r, hops: updateHops(1, 2), probes: probes([]ref.V{1, 2}), nodes: 4, edges: 5, seen: &mc.Set{}}
	if r.Thorough {
		x.nodes, x.edges = 5, 6
	}
	knownTail(r)
	starts := histStarts()
	none := []index{{at: 0}}
	for i, s := range starts {
		d := 3
		if i == 0 || r.Thorough {
			d = 4
		}
		x.all(s, d, none)
	}
	depth := []int{6, 5, 5}
	if r.Thorough {
		depth = []int{9, 7, 7}
	}
	for i, s := range starts {
		x.reach(s, depth[i], index{})
	}
}

// knownTail are the histories that the others leave out
func knownTail(r *mc.Run) {
	c := func(l string) hop {
		return mkHop(ref.Q(nil, []ref.Update{ref.Create{Parts: []ref.Part{nodePart(nP("", l))}}}, nil))
	}
	d := func(l string) hop {
		return mkHop(ref.Q([]ref.Match{{Parts: []ref.Part{nodePart(nP("n", l))}}}, []ref.Update{ref.Delete{Exprs: []ref.Expr{ref.Var("n")}}}, nil))
	}
	for _, hs := range [][]hop{{c("A"), c("B"), d("B"), c("C")}, {c("A"), d("A"), c("B"), d("B")}} {
		hs := hs
		r.Seq(func(w *mc.W) {
			w.Case("newest node deleted: "+histText(start{}, hs), func() string {
				h, err := replay(w, start{g: ref.NewGraph()}, hs, index{})
				if err != nil {
					return err.Error()
				}
				if _, err := h.world.Snapshot(); err != nil {
					return err.Error()
				}
				return ""
			})
		})
	}
}
