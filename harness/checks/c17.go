package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C17", Level: "model_checking",
		Bounds: "every combination of the reading clauses, conditions and projections of the alphabets (including failing ones, functions of elements and lists kept as properties) on all graphs of the family, under 8 index configurations, comparing every element, list order, adjacency, label and property lookup before and after, and the rows with those of the graph without indexes; all histories of up to 3 (thorough 4) updating queries with the indexes added before, between or after them, for integer and text values" + sizeBounds + objectBounds,
		Assume: []string{"indexed properties hold values of one type, integers or text (known findings)", "the lookup of relationships by an indexed property, which no query uses, is not judged after DELETE (known finding)"},
		Fn:     runC17,
	})
}

// dump describes everything that can be observed of a graph, with the
// order of all lists
func dump(h *sut.World, ix index) string {
	var b strings.Builder
	id := func(v interface{}) string { return ref.Key(h.Model(v)) }
	props := func(f func(func(string, interface{}) bool) bool) {
		var p []string
		f(func(k string, v interface{}) bool {
			p = append(p, fmt.Sprintf("%s=%s %T", k, ref.Key(h.Model(v)), v))
			return true
		})
		sort.Strings(p)
		b.WriteString("{" + strings.Join(p, ", ") + "}")
	}
	fmt.Fprint(&b, h.G.NumNodes(), " ", h.G.NumEdges(), "\n")
	for itr := h.G.GetNodes(); itr.Next(); {
		n := itr.Node()
		b.WriteString(id(n) + fmt.Sprint(n.GetID(), n.GetLabels().SortedSlice()))
		props(n.ForEachProperty)
		for _, d := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge} {
			b.WriteString(" /")
			for e := n.GetEdges(d); e.Next(); {
				b.WriteString(" " + id(e.Edge()))
			}
		}
		b.WriteString("\n")
	}
	for itr := h.G.GetEdges(); itr.Next(); {
		e := itr.Edge()
		b.WriteString(id(e) + " " + e.GetLabel() + " " + id(e.GetFrom()) + " " + id(e.GetTo()))
		props(e.ForEachProperty)
		b.WriteString("\n")
	}
	for _, l := range []string{"A", "B", "C"} {
		b.WriteString(l)
		for itr := h.G.GetNodesWithAllLabels(lpg.NewStringSet(l)); itr.Next(); {
			b.WriteString(" " + id(itr.Node()))
		}
		b.WriteString("\n")
	}
	for _, t := range []string{"X", "Y"} {
		b.WriteString(t)
		for itr := h.G.GetEdgesWithAnyLabel(lpg.NewStringSet(t)); itr.Next(); {
			b.WriteString(" " + id(itr.Edge()))
		}
		b.WriteString("\n")
	}
	for _, k := range ix.nodes {
		b.WriteString("index " + k)
		for itr := h.G.GetNodesWithProperty(k); itr.Next(); {
			b.WriteString(" " + id(itr.Node()))
		}
		// All values are of one type
		vals := []interface{}{1, 2, 3}
		for itr := h.G.GetNodes(); itr.Next(); {
			if v, ok := itr.Node().GetProperty(k); ok {
				if _, ok := v.(string); ok {
					vals = []interface{}{"a", "b", "c"}
				}
			}
		}
		for _, v := range vals {
			fmt.Fprint(&b, " ", v, ":")
			for itr := h.G.FindNodes(lpg.NewStringSet("A"), map[string]interface{}{k: v}); itr.Next(); {
				b.WriteString(" " + id(itr.Node()))
			}
		}
		b.WriteString("\n")
	}
	for _, k := range ix.edges {
		b.WriteString("index " + k)
		for itr := h.G.GetEdgesWithProperty(k); itr.Next(); {
			b.WriteString(" " + id(itr.Edge()))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func indexConfigs() []index {
	return []index{
		{name: "an ordered index of nodes", nodes: []string{"p"}, typ: lpg.BtreeIndex},
		{name: "a hash index of nodes", nodes: []string{"p"}, typ: lpg.HashIndex},
		{name: "ordered indexes of nodes", nodes: []string{"p", "q"}, typ: lpg.BtreeIndex},
		{name: "an ordered index of relationships", edges: []string{"p"}, typ: lpg.BtreeIndex},
		{name: "a hash index of relationships", edges: []string{"p"}, typ: lpg.HashIndex},
		{name: "ordered indexes of both", nodes: []string{"p", "q"}, edges: []string{"p"}, typ: lpg.BtreeIndex},
		{name: "hash indexes of both", nodes: []string{"p", "q"}, edges: []string{"p"}, typ: lpg.HashIndex},
	}
}

func runC17(r *mc.Run) {
	sizesC17(r)
	readOnly(r)
	for k, vals := range [][2]ref.V{{1, 2}, {"a", "b"}} {
		var indexes []index
		depth := 3
		if r.Thorough {
			depth = 4
		}
		for i, c := range indexConfigs() {
			if !r.Thorough && i != 1 && i != 2 && i != 5 {
				continue
			}
			for at := 0; at <= 2; at++ {
				c.at = at
				indexes = append(indexes, c)
			}
		}
		var nodeIx, edgeIx []index
		for _, x := range indexes {
			if len(x.edges) > 0 {
				edgeIx = append(edgeIx, x)
			} else {
				nodeIx = append(nodeIx, x)
			}
		}
		hops := updateHops(vals[0], vals[1])
		if k > 0 {
			// No arithmetic
			hops = hops[:len(hops)-1]
		}
		ps := probes([]ref.V{vals[0], vals[1]})
		for si, s := range histStarts() {
			if k > 0 && len(s.g.Nodes) > 0 {
				// The graph has integers
				continue
			}
			d := depth
			if si > 0 {
				d--
			}
			x := &explorer{r: r, hops: hops, probes: ps, nodes: 4, edges: 5, seen: &mc.Set{}}
			x.all(s, d, nodeIx)
			x.all(s, d, edgeIx)
			if si == 1 {
				x.reach(s, depth+1, edgeIx[len(edgeIx)-1])
			}
		}
	}
	knownIndexes(r)
}

// readOnly evaluates queries that only read
func readOnly(r *mc.Run) {
	list := ref.List{1, "x", nil}
	nk := []nodeKind{{}, {labels: []string{"A"}, props: ref.Map{"p": 1, "l": list}}, {labels: []string{"A", "B"}, props: ref.Map{"p": 2, "q": "b"}}}
	ek := []edgeKind{{typ: "X", props: ref.Map{"p": 1}}, {typ: "Y", props: ref.Map{"p": 2, "l": list}}}
	gs := append(graphsOf(0, 2, nk, 2, ek), graphsOf(3, 3, nk[1:], 1, ek)...)
	step := 6
	if r.Thorough {
		step = 1
	}
	var graphs []*ref.Graph
	for i, g := range gs {
		if len(g.Nodes) < 2 || i%step == 0 {
			graphs = append(graphs, g)
		}
	}
	matches := []string{"", "MATCH (n) ", "MATCH (n:A) ", "MATCH (n:A:B) ", "MATCH (n {p: 1}) ", "MATCH (n:A {p: $one}) ", "MATCH (n {p: 2, q: 'b'}) ", "MATCH (n)-[e]->(m) ", "MATCH (n)-[e:X {p: 1}]->(m) ", "MATCH (n {p: 1})-[e:X|Y {p: 2}]-(m) ",
		"MATCH (n)-[e*]-(m) ", "MATCH (n)-[e*1..2 {p: 1}]->(m:A) ", "MATCH (n), (m {p: 1}) ", "MATCH (n {p: 1}) MATCH (n)-[e {p: 1}]->(m) ", "OPTIONAL MATCH (n:C) ", "MATCH (n) OPTIONAL MATCH (n)-[e:X {p: 1}]->(m) ", "MATCH (n $props) ", "MATCH (n {l: [1, 'x', null]}) ", "MATCH (n {p: $nosuch}) ", "MATCH (n)<-[e:Y {p: 2}]-(n) ", "MATCH (n {p: null}) ", "MATCH (n {p: 1/0}) ", "MATCH (n {p: 1.0}) ", "MATCH (n)-[e]->(m)-[f {p: 1}]->(o {p: 1}) "}
	wheres := []string{"", "WHERE n.p = 1 ", "WHERE n.p > 1 AND n.q = 'b' ", "WHERE n:A ", "WHERE n.p IN [1, 2] OR n.nosuch IS NULL ", "WHERE 'A' IN labels(n) ", "WHERE (n)-->() ", "WHERE 1/0 = 1 ", "WHERE size(n.l) > 0 ", "WHERE n.p = m.p "}
	rets := []string{"RETURN *", "RETURN n", "RETURN n.p, n.l + [4], n.l + n.l, n.l[0..2]", "RETURN labels(n), type(e), properties(n), keys(n)", "RETURN n.l, n, e ORDER BY n.p DESC", "RETURN DISTINCT n.p, n", "RETURN count(*), collect(n.p)", "RETURN n AS a, n.p + 1 AS n", "RETURN 1/0", "RETURN e.p, e.l, e", "RETURN n:A:C", "RETURN {a: n, b: [n, e], c: n.l}", "RETURN CASE WHEN n.p = 1 THEN n ELSE n.l END AS x ORDER BY x", "RETURN nosuch(n)", "RETURN n.p AS x UNION RETURN 1 AS x", "RETURN n.p.q", "RETURN [x IN n.l | x]", "RETURN head(n.l), range(0, n.p), nodes(e), relationships(e), startNode(e), id(n)"}
	var qs []string
	for _, m := range matches {
		for i, w := range wheres {
			if m == "" && i > 0 {
				continue
			}
			for j, t := range rets {
				if i > 1 && j > 4 && (i+j)%3 != 0 && !r.Thorough {
					continue
				}
				qs = append(qs, m+w+t)
			}
		}
	}
	r.Note("queries", int64(len(qs)))
	configs := append([]index{{name: "no index"}}, indexConfigs()...)
	params := map[string]ref.V{"one": 1, "props": ref.Map{"p": 1}}
	r.Par(len(qs), func(w *mc.W, i int) {
		q := qs[i]
		w.Case(q+" on all graphs under all indexes", func() string {
			p, err := sut.SafeParse(q)
			if err != nil {
				r.Unspec()
				return ""
			}
			for _, g := range graphs {
				want := ""
				for ci, c := range configs {
					ways := []string{"before"}
					if ci > 0 {
						ways = []string{"before", "after"}
					}
					if hasProps(g, false) && (ci == 0 || c.typ == lpg.HashIndex) {
						ways = append(ways, "objects")
					}
					for _, way := range ways {
						b := sut.BuildOpts{Wrap: way == "objects"}
						if way != "after" {
							b.Before = c.add
						} else {
							b.After = c.add
						}
						world := sut.Build(g, b)
						d := dump(world, c)
						r.State(d)
						ctx := world.Ctx(nil, params)
						for k := 0; k < 2; k++ {
							out := world.Eval(p, ctx)
							r.Trans(1)
							r.Trace(1)
							at := " on " + g.String() + " with " + c.name
							if b.Wrap {
								at += " (property values are objects with native values)"
							}
							if out.Panic != "" || out.Bad != "" {
								return "gives " + out.String() + at
							}
							res := "error"
							if out.Err == nil {
								res = rowsText(out.Rows, false)
							}
							if want == "" {
								want = res
							}
							if res != want {
								return "gives " + out.String() + at + ", expected " + want
							}
							if x := dump(world, c); x != d {
								return "changes the graph" + at + ": before\n" + d + "after\n" + x
							}
							ctx = world.Ctx(nil, params)
						}
					}
				}
			}
			return ""
		})
	})
}

// knownIndexes are the cases that the others leave out
func knownIndexes(r *mc.Run) {
	type k struct {
		key     string
		ix      index
		queries []string
		rows    int
	}
	bt, hs := lpg.BtreeIndex, lpg.HashIndex
	for _, c := range []k{
		{"ordered index of integers and text", index{nodes: []string{"p"}, typ: bt}, []string{"CREATE ({p: 1})", "CREATE ({p: 'a'})", "MATCH (n {p: 1}) RETURN n"}, 1},
		{"ordered index of integers looked up by text", index{nodes: []string{"p"}, typ: bt}, []string{"CREATE ({p: 1})", "MATCH (n {p: 'a'}) RETURN n"}, 0},
		{"hash index looked up by list", index{nodes: []string{"p"}, typ: hs}, []string{"CREATE ({p: 1})", "MATCH (n {p: [1]}) RETURN n"}, 0},
		{"ordered index of floats", index{nodes: []string{"p"}, typ: bt}, []string{"CREATE ({p: 1.5})", "CREATE ({p: 2.5})", "MATCH (n {p: 1.5}) RETURN n"}, 1},
		{"ordered index of booleans", index{nodes: []string{"p"}, typ: bt}, []string{"CREATE ({p: true})", "CREATE ({p: false})", "MATCH (n {p: true}) RETURN n"}, 1},
		{"hash index of lists", index{nodes: []string{"p"}, typ: hs}, []string{"CREATE ({p: [1]})", "MATCH (n {p: [1]}) RETURN n"}, 1},
		{"hash index of floats", index{nodes: []string{"p"}, typ: hs}, []string{"CREATE ({p: 1.5})", "CREATE ({p: 2.5})", "MATCH (n {p: 1.5}) RETURN n"}, 1},
		{"hash index of booleans and text", index{nodes: []string{"p"}, typ: hs}, []string{"CREATE ({p: true})", "CREATE ({p: 'true'})", "MATCH (n {p: true}) RETURN n"}, 1},
		{"relationship index after DELETE", index{edges: []string{"p"}, typ: bt}, []string{"CREATE (:A)-[:X {p: 1}]->(:B)", "CREATE (:A)-[:X]->(:B)", "CREATE (:A)-[:X]->(:B)", "CREATE (:A), (:A), (:B), (:B)", "MATCH (a)-[e:X {p: 1}]->(b) DELETE e", "MATCH (a)-[e:X {p: 1}]->(b) RETURN e"}, 0},
		{"relationship index without type after DELETE", index{edges: []string{"p"}, typ: bt}, []string{"CREATE (:A)-[:X {p: 1}]->(:B)", "MATCH (a)-[e:X {p: 1}]->(b) DELETE e", "MATCH (a)-[e {p: 1}]->(b) RETURN e"}, 0},
		{"lookup by relationship index after DELETE", index{edges: []string{"p"}, typ: hs}, []string{"CREATE (:A)-[:X {p: 1}]->(:B)", "CREATE (:A)-[:X {p: 2}]->(:B)", "MATCH (a)-[e {p: 1}]->(b) DELETE e", "MATCH (a)-[e]->(b) RETURN e"}, 1},
	} {
		c := c
		r.Seq(func(w *mc.W) {
			w.Case(c.key, func() string {
				world := sut.NewWorld()
				c.ix.add(world.G)
				var out sut.Outcome
				for _, t := range c.queries {
					p, err := sut.SafeParse(t)
					if err != nil {
						return err.Error()
					}
					out = world.Eval(p, world.Ctx(nil, nil))
					if out.Panic != "" || out.Err != nil {
						return t + " gives " + out.String()
					}
				}
				if len(out.Rows) != c.rows {
					return c.queries[len(c.queries)-1] + " gives " + out.String()
				}
				for _, k := range c.ix.edges {
					n := 0
					for itr := world.G.GetEdgesWithProperty(k); itr.Next(); {
						n++
					}
					for itr := world.G.GetEdges(); itr.Next(); {
						if _, ok := itr.Edge().GetProperty(k); ok {
							n--
						}
					}
					if n != 0 && strings.HasPrefix(c.key, "lookup") {
						return fmt.Sprintf("the index gives %d relationships that are not in the graph", n)
					}
				}
				return ""
			})
		})
	}
}
