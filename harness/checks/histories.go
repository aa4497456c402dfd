package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// hop is a query of a history
type hop struct {
	q    ref.Query
	text string
	// nodes and edges are set if the query can create some
	nodes, edges bool
}

func mkHop(q ref.Query) hop {
	h := hop{q: q, text: q.Str()}
	for _, s := range q.Singles {
		for _, u := range s.Upds {
			var parts []ref.Part
			switch x := u.(type) {
			case ref.Create:
				parts = x.Parts
			case ref.Merge:
				parts = []ref.Part{x.Part}
			}
			for _, p := range parts {
				h.edges = h.edges || len(p.Rels) > 0
				h.nodes = true
				bound := map[string]bool{}
				for _, v := range ref.PartVars(allParts(s.Reads)) {
					bound[v] = true
				}
				fresh := false
				for _, n := range p.Nodes {
					fresh = fresh || n.Var == "" || !bound[n.Var]
				}
				h.nodes = fresh
			}
		}
	}
	return h
}

// history is the real graph after a sequence of queries
type history struct {
	world *sut.World
	// tail is set if the newest node was deleted: the node list of lpg
	// loses the nodes that are created afterwards (a known finding)
	tail  bool
	order []ref.NodeID
}

func (h *history) track() {
	var order []ref.NodeID
	seen := map[ref.NodeID]bool{}
	for itr := h.world.G.GetNodes(); itr.Next(); {
		id, _ := h.world.Model(itr.Node()).(ref.NodeID)
		if seen[id] {
			break
		}
		seen[id] = true
		order = append(order, id)
	}
	if n := len(h.order); n > 0 && !seen[h.order[n-1]] {
		h.tail = true
	}
	h.order = order
}

// index is a configuration of property indexes
type index struct {
	name  string
	nodes []string
	edges []string
	typ   lpg.IndexType
	// at is the number of queries before the indexes are added
	at int
}

func (x index) add(g *lpg.Graph) {
	for _, k := range x.nodes {
		g.AddNodePropertyIndex(k, x.typ)
	}
	for _, k := range x.edges {
		g.AddEdgePropertyIndex(k, x.typ)
	}
}

func (x index) text() string {
	if len(x.nodes)+len(x.edges) == 0 {
		return ""
	}
	return fmt.Sprintf(" with %s after %d queries", x.name, x.at)
}

// start is the graph a history begins with
type start struct {
	g    *ref.Graph
	text string
}

// replay runs the queries of a history without judging them
func replay(w *mc.W, s start, hops []hop, ix index) (*history, error) {
	h := &history{world: sut.Build(s.g, sut.BuildOpts{})}
	h.track()
	if ix.at == 0 {
		ix.add(h.world.G)
	}
	for i, q := range hops {
		p, err := w.Cache.Parse(q.text)
		if err != nil {
			return nil, fmt.Errorf("%s does not parse: %v", q.text, err)
		}
		o := h.world.Eval(p, h.world.Ctx(nil, nil))
		w.R.Trans(1)
		if o.Panic != "" {
			return nil, fmt.Errorf("%s gives %s", q.text, o)
		}
		h.track()
		if i+1 == ix.at {
			ix.add(h.world.G)
		}
	}
	return h, nil
}

// limits of the graphs in a history
const maxHistNodes, maxHistEdges = 5, 6

func (h *history) allows(g *ref.Graph, q hop, nodes, edges int) bool {
	if q.nodes && (h.tail || len(g.Nodes) >= nodes) {
		return false
	}
	return !q.edges || len(g.Edges) < edges
}

func histText(s start, hops []hop) string {
	var t []string
	for _, h := range hops {
		t = append(t, h.text)
	}
	x := strings.Join(t, "; ")
	if s.text != "" {
		x = s.text + ": " + x
	}
	return x
}

// probes are the queries that look at a graph after a history
func probes(vals []ref.V) []hop {
	var out []hop
	add := func(ps ...ref.Part) {
		out = append(out, mkHop(ref.Q([]ref.Match{{Parts: ps}}, nil, varsReturn(ps...))))
	}
	add(nodePart(nP("n")))
	for _, l := range []string{"A", "B", "C"} {
		add(nodePart(nP("n", l)))
	}
	add(nodePart(nP("n", "A", "B")))
	for _, v := range vals {
		p := ref.MapX{{K: "p", E: lit(v)}}
		add(nodePart(ref.NodePat{Var: "n", Props: p}))
		add(nodePart(ref.NodePat{Var: "n", Labels: []string{"A"}, Props: p}))
		add(part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}, Props: p}, nP("b")))
		add(part(nP("a"), ref.RelPat{Var: "e", Dir: ref.Both, Props: p}, ref.NodePat{Var: "b", Props: p}))
	}
	for _, d := range []ref.Dir{ref.Right, ref.Left, ref.Both} {
		add(part(nP("a"), ref.RelPat{Var: "e", Dir: d}, nP("b")))
		add(part(nP("a", "A"), ref.RelPat{Var: "e", Types: []string{"X"}, Dir: d}, nP("b")))
		add(part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X", "Y"}, Dir: d}, nP("b", "B")))
	}
	add(part(nP("a"), ref.RelPat{Var: "e"}, nP("a")))
	return out
}

// look runs the probes
func look(w *mc.W, h *history, g *ref.Graph, ps []hop) string {
	for _, p := range ps {
		q, err := w.Cache.Parse(p.text)
		if err != nil {
			return p.text + " does not parse: " + err.Error()
		}
		if _, _, s := step(w, h.world, g, q, p.q, h.world.Ctx(nil, nil), qopts{}); s != "" {
			return "then " + p.text + " on " + g.String() + " " + s
		}
	}
	return ""
}

// lookups compares the lookups by indexed property with the elements
func lookups(h *history, g *ref.Graph, ix index) string {
	for _, k := range ix.nodes {
		want := map[ref.NodeID]bool{}
		for id, n := range g.Nodes {
			if _, ok := n.Props[k]; ok {
				want[id] = true
			}
		}
		c := 0
		for itr := h.world.G.GetNodesWithProperty(k); itr.Next(); {
			id, _ := h.world.Model(itr.Node()).(ref.NodeID)
			if !want[id] {
				return fmt.Sprintf("the index of %s gives n%d", k, id)
			}
			c++
		}
		if c != len(want) {
			return fmt.Sprintf("the index of %s gives %d nodes instead of %d", k, c, len(want))
		}
	}
	return ""
}

// dfs explores all histories of up to depth queries. The last query of
// each is compared with the reference.
type explorer struct {
	r            *mc.Run
	hops         []hop
	probes       []hop
	nodes, edges int
	seen         *mc.Set
}

// run checks the last query of a history. It gives the graph after it,
// nil if the query is not allowed there or was not as expected.
func (x *explorer) run(w *mc.W, s start, hops []hop, ix index) (next *ref.Graph, tail bool) {
	key := histText(s, hops) + ix.text()
	last := hops[len(hops)-1]
	if o := x.r.Only; o != "" && o != key {
		// Find the way to the case
		if strings.HasPrefix(o, histText(s, hops)) {
			return ref.NewGraph(), false
		}
		return nil, false
	}
	w.Case(key, func() string {
		next = nil
		pre := ix
		if ix.at == len(hops) {
			// Added after the last query
			pre = index{at: -1}
		}
		h, err := replay(w, s, hops[:len(hops)-1], pre)
		if err != nil {
			return err.Error()
		}
		g, err := h.world.Snapshot()
		if err != nil {
			return "leaves an inconsistent graph: " + err.Error()
		}
		if !h.allows(g, last, x.nodes, x.edges) {
			return ""
		}
		p, err := w.Cache.Parse(last.text)
		if err != nil {
			return last.text + " does not parse: " + err.Error()
		}
		after, _, what := step(w, h.world, g, p, last.q, h.world.Ctx(nil, nil), qopts{})
		if what != "" {
			return "on " + g.String() + " " + what
		}
		h.track()
		if ix.at == len(hops) {
			ix.add(h.world.G)
		}
		if ix.nodes != nil || ix.edges != nil {
			if s := lookups(h, after, ix); s != "" {
				return s
			}
		}
		c := fmt.Sprint(ref.Canon(after, nil, false, 0, 0), h.tail, ix.text())
		w.R.State(c)
		if x.seen.Add(c) || len(hops) <= 2 {
			if s := look(w, h, after, x.probes); s != "" {
				return s
			}
		}
		next, tail = after, h.tail
		return ""
	})
	return
}

// all explores all histories of exactly 1..depth queries
func (x *explorer) all(s start, depth int, ixs []index) {
	n := len(x.hops)
	x.r.Par(n*n*len(ixs), func(w *mc.W, k int) {
		ix := ixs[k/(n*n)]
		i, j := k/n%n, k%n
		first := []hop{x.hops[i]}
		if j == 0 && ix.at <= 1 && x.r.Only == "" || x.r.Only == histText(s, first)+ix.text() {
			x.run(w, s, first, ix)
		}
		var rec func(hs []hop)
		rec = func(hs []hop) {
			if x.r.Stopped() {
				return
			}
			if len(hs) >= ix.at {
				g, _ := x.run(w, s, hs, ix)
				if g == nil {
					return
				}
			}
			if len(hs) == depth {
				return
			}
			for _, q := range x.hops {
				rec(append(hs[:len(hs):len(hs)], q))
			}
		}
		if depth > 1 {
			rec([]hop{x.hops[i], x.hops[j]})
		}
	})
}

// reach explores the canonical graphs that can be reached, each from
// its shortest history
func (x *explorer) reach(s start, depth int, ix index) {
	type item struct{ hops []hop }
	level := []item{{}}
	visited := &mc.Set{}
	for d := 0; d < depth && len(level) > 0 && !x.r.Stopped(); d++ {
		n := len(x.hops)
		next := make([]*item, len(level)*n)
		x.r.Par(len(level)*n, func(w *mc.W, k int) {
			hs := append(append([]hop{}, level[k/n].hops...), x.hops[k%n])
			g, tail := x.run(w, s, hs, ix)
			if g == nil {
				return
			}
			if x.r.Only != "" || visited.Add(fmt.Sprint(ref.Canon(g, nil, false, 0, 0), tail)) {
				next[k] = &item{hs}
			}
		})
		level = nil
		for _, i := range next {
			if i != nil {
				level = append(level, *i)
			}
		}
		x.r.Note(fmt.Sprintf("graphs_first_reached_after_%d_queries", d+1), int64(len(level)))
	}
}

// updateHops are the updating queries of histories
func updateHops(v1, v2 ref.V) []hop {
	var out []hop
	add := func(reads []ref.Match, upds ...ref.Update) { out = append(out, mkHop(ref.Q(reads, upds, nil))) }
	m := func(ps ...ref.Part) []ref.Match { return []ref.Match{{Parts: ps}} }
	pp := func(v ref.V) ref.MapX { return ref.MapX{{K: "p", E: lit(v)}} }
	nN := func(v string, p ref.Expr, l ...string) ref.NodePat { return ref.NodePat{Var: v, Props: p, Labels: l} }
	R := func(v, t string) ref.RelPat { return ref.RelPat{Var: v, Types: []string{t}} }
	setP := func(v, k string, e ref.Expr) ref.Set {
		return ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: v, Key: k, E: e}}}
	}
	n, nA, nB := m(nodePart(nP("n"))), m(nodePart(nP("n", "A"))), m(nodePart(nP("n", "B")))
	del := func(d bool, vs ...string) ref.Delete {
		x := ref.Delete{Detach: d}
		for _, v := range vs {
			x.Exprs = append(x.Exprs, ref.Var(v))
		}
		return x
	}
	// Creation
	add(nil, ref.Create{Parts: []ref.Part{nodePart(nN("n", pp(v1), "A"))}})
	add(nil, ref.Create{Parts: []ref.Part{part(nN("a", pp(v2), "A", "B"), ref.RelPat{Var: "e", Types: []string{"X"}, Props: pp(v1)}, nP("b", "B"))}})
	add(m(nodePart(nP("a", "A")), nodePart(nP("b", "B"))), ref.Create{Parts: []ref.Part{part(nP("a"), R("e", "Y"), nP("b"))}})
	add(nA, ref.Create{Parts: []ref.Part{part(nP("n"), ref.RelPat{Var: "e", Types: []string{"X"}, Props: pp(v2)}, nP("n"))}})
	// Merge
	add(nil, ref.Merge{Part: nodePart(nN("n", pp(v1), "A")), Acts: []ref.MergeAct{{OnCreate: false, Set: ref.Set{Items: []ref.SetItem{{Kind: "label", Var: "n", Labels: []string{"B"}}}}}}})
	add(nA, ref.Merge{Part: part(nP("n"), R("e", "X"), nP("b", "B")), Acts: []ref.MergeAct{{OnCreate: true, Set: setP("b", "p", lit(v2))}}})
	add(m(nodePart(nP("a", "A")), nodePart(nP("b"))), ref.Merge{Part: part(nP("b"), R("e", "Y"), nP("a"))})
	// Labels and properties
	add(nA, ref.Set{Items: []ref.SetItem{{Kind: "label", Var: "n", Labels: []string{"B", "C"}}}})
	add(nB, ref.Remove{Items: []ref.RemoveItem{{Var: "n", Labels: []string{"B"}}}})
	add(nA, ref.Remove{Items: []ref.RemoveItem{{Var: "n", Labels: []string{"A", "B"}}}})
	add(n, setP("n", "p", lit(v2)))
	add(nB, setP("n", "p", lit(nil)))
	add(nA, ref.Set{Items: []ref.SetItem{{Kind: "=", Var: "n", E: ref.MapX{{K: "q", E: lit(v1)}, {K: "p", E: lit(v1)}}}}})
	add(m(part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}}, nP("b"))), setP("a", "p", prop("b", "p")), setP("b", "q", prop("a", "p")))
	add(m(nodePart(nN("n", pp(v1)))), ref.Remove{Items: []ref.RemoveItem{{Var: "n", Key: "p"}}})
	// Deletion
	add(m(part(nP("a"), R("e", "X"), nP("b"))), del(false, "e"))
	add(m(part(nP("a"), ref.RelPat{Var: "e", Dir: ref.Both}, nP("b", "B"))), del(false, "e"))
	add(m(nodePart(nN("n", pp(v1)))), del(true, "n"))
	add(m(nodePart(nN("n", pp(v2)))), del(false, "n"))
	add(m(part(nP("a", "A"), ref.RelPat{Var: "e"}, nP("b"))), del(true, "a", "e"))
	add(nB, ref.Create{Parts: []ref.Part{part(nP("z", "A"), R("x", "Y"), nP("n"))}}, del(true, "n"))
	add(n, del(true, "n"))
	// Failing in the middle
	add(nA, setP("n", "p", lit(v2)), setP("n", "q", ref.Bin{Op: "/", A: lit(1), B: lit(0)}))
	add(m(part(nP("a"), R("e", "X"), nP("b"))), del(false, "e", "b"), ref.Create{Parts: []ref.Part{nodePart(ref.NodePat{Labels: []string{"C"}, Props: ref.Param("nosuch")})}})
	return out
}

func sortedHops(h []hop) []string {
	var t []string
	for _, x := range h {
		t = append(t, x.text)
	}
	sort.Strings(t)
	return t
}
