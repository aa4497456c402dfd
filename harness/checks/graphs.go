package checks

import (
	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// nodeKind and edgeKind are the attributes of generated elements
type nodeKind struct {
	labels []string
	props  ref.Map
}
type edgeKind struct {
	typ   string
	props ref.Map
}

func cloneProps(m ref.Map) ref.Map {
	r := ref.Map{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// graphsOf enumerates all graphs with nmin..nmax nodes and up to emax
// relationships of the given kinds, up to isomorphism
func graphsOf(nmin, nmax int, nk []nodeKind, emax int, ek []edgeKind) []*ref.Graph {
	var out []*ref.Graph
	seen := map[string]bool{}
	for n := nmin; n <= nmax; n++ {
		kinds := make([]int, n)
		var nodes func(i, min int)
		type edge struct{ f, t, k int }
		var all []edge
		for f := 0; f < n; f++ {
			for t := 0; t < n; t++ {
				for k := range ek {
					all = append(all, edge{f, t, k})
				}
			}
		}
		var chosen []edge
		var edges func(min int)
		edges = func(min int) {
			g := ref.NewGraph()
			for _, k := range kinds {
				g.AddNode(nk[k].labels, cloneProps(nk[k].props))
			}
			for _, e := range chosen {
				g.AddEdge(ref.NodeID(e.f), ref.NodeID(e.t), ek[e.k].typ, cloneProps(ek[e.k].props))
			}
			c := ref.Canon(g, nil, false, 0, 0)
			if !seen[c] {
				seen[c] = true
				out = append(out, g)
			}
			if len(chosen) == emax {
				return
			}
			for i := min; i < len(all); i++ {
				chosen = append(chosen, all[i])
				edges(i)
				chosen = chosen[:len(chosen)-1]
			}
		}
		nodes = func(i, min int) {
			if i == n {
				edges(0)
				return
			}
			for k := min; k < len(nk); k++ {
				kinds[i] = k
				nodes(i+1, k)
			}
		}
		nodes(0, 0)
	}
	return out
}

// allOrders gives all creation orders of a graph
func allOrders(g *ref.Graph) []sut.BuildOpts {
	var out []sut.BuildOpts
	for _, n := range permutations(len(g.Nodes)) {
		for _, e := range permutations(len(g.Edges)) {
			out = append(out, sut.BuildOpts{NodeOrder: n, EdgeOrder: e})
		}
	}
	return out
}

// fewOrders gives the natural and the reversed order
func fewOrders(g *ref.Graph) []sut.BuildOpts {
	rev := func(n int) []int {
		var p []int
		for i := n - 1; i >= 0; i-- {
			p = append(p, i)
		}
		return p
	}
	n, e := rev(len(g.Nodes)), rev(len(g.Edges))
	out := []sut.BuildOpts{{}}
	if len(n) > 1 {
		out = append(out, sut.BuildOpts{NodeOrder: n, EdgeOrder: e})
	}
	if len(e) > 1 {
		out = append(out, sut.BuildOpts{EdgeOrder: e})
	}
	return out
}

// runOnAll runs a query on all graphs, in all the given creation orders
func runOnAll(w *mc.W, family string, graphs []*ref.Graph, q ref.Query, orders func(*ref.Graph) []sut.BuildOpts, o qopts) {
	text := q.Str()
	w.Case(text+envText(o.params)+" on "+family, func() string {
		p, err := w.Cache.Parse(text)
		if err != nil {
			return "does not parse: " + err.Error()
		}
		defer w.Cache.Forget(text)
		for _, g := range graphs {
			if w.R.Stopped() {
				return ""
			}
			w.Tick()
			oo := o
			oo.builds = orders(g)
			if s := queryCase(w, p, g, q, oo); s != "" {
				return "on " + g.String() + " " + s
			}
		}
		return ""
	})
}

// one1 gives only the natural order
func one1(g *ref.Graph) []sut.BuildOpts { return []sut.BuildOpts{{}} }
