package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C21", Level: "model_checking",
		Bounds: "all pattern expressions of up to 2 (thorough 3) relationships with every direction, several length ranges and every assignment of the names this, target, another name or none to the nodes, from every node of all graphs of up to 3 (thorough 4) nodes and 3 relationships in several creation orders; the same over labels, types and properties; larger chains, cycles, stars and trees; every parsed expression is used for all nodes and graphs" + sizeBounds + objectBounds,
		Assume: []string{"the pattern has a node named this"},
		Fn:     runC21,
	})
}

// SafePattern parses a pattern expression
func SafePattern(text string) (p oc.PatternPart, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = sut.PanicError{Text: fmt.Sprint(r)}
		}
	}()
	return oc.ParsePatternExpr(text)
}

func findRelative(p oc.PatternPart, n *lpg.Node) (r []*lpg.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = sut.PanicError{Text: fmt.Sprint(r)}
		}
	}()
	return p.FindRelative(n)
}

// relatives gives the expected nodes
func relatives(g *ref.Graph, p ref.Part, this ref.NodeID) (string, ref.St) {
	res := ref.Run(g, matchQ(p), ref.Opts{Vars: map[string]ref.V{"this": this}})
	if res.St != ref.OK {
		return "", res.St
	}
	var out []string
	for _, row := range res.Rows {
		if n, ok := row["target"].(ref.NodeID); ok {
			out = append(out, fmt.Sprint(int(n)))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " "), ref.OK
}

func relativesCase(w *mc.W, family string, graphs []*ref.Graph, part ref.Part, orders func(*ref.Graph) []sut.BuildOpts) {
	text := part.Str()
	w.Case("pattern "+text+" on "+family, func() string {
		p, err := SafePattern(text)
		if err != nil {
			return "does not parse: " + err.Error()
		}
		for _, g := range graphs {
			if w.R.Stopped() {
				return ""
			}
			w.Tick()
			ids := g.NodeIDs()
			want := make([]string, len(ids))
			st := make([]ref.St, len(ids))
			for i, id := range ids {
				want[i], st[i] = relatives(g, part, id)
				w.R.State(g.Text() + fmt.Sprint(id) + want[i])
				w.R.Trans(1)
			}
			builds := orders(g)
			if hasProps(g, false) {
				builds = append(builds[:len(builds):len(builds)], sut.BuildOpts{Wrap: true})
			}
			for bi, b := range builds {
				world := sut.Build(g, b)
				for i, id := range ids {
					got, err := findRelative(p, world.Node(id))
					w.R.Trace(1)
					at := fmt.Sprintf("from n%d of %s (creation order %d, property objects: %v)", id, g, bi, b.Wrap)
					if isPanic(err) {
						return at + ": " + err.Error()
					}
					if st[i] == ref.UNSPEC {
						w.R.Unspec()
						continue
					}
					if (err != nil) != (st[i] == ref.ERR) {
						return fmt.Sprintf("%s gives error %v, expected %v", at, err, st[i])
					}
					var names []string
					for _, n := range got {
						if n == nil {
							return at + " gives a nil node"
						}
						names = append(names, ref.Key(world.Model(n))[1:])
					}
					sort.Strings(names)
					if s := strings.Join(names, " "); s != want[i] {
						return fmt.Sprintf("%s gives the nodes [%s], expected [%s]", at, s, want[i])
					}
				}
				if bi == 0 {
					snap, err := world.Snapshot()
					if err != nil {
						return "leaves an inconsistent graph: " + err.Error()
					}
					if snap.String() != g.String() {
						return "changes the graph to " + snap.String()
					}
				}
			}
		}
		w.R.Sample(func() string { return text + " on " + family })
		return ""
	})
}

// targetNames are the assignments of names to n nodes with at least one
// this
func targetNames(n int) [][]string {
	var out [][]string
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) == n {
			for _, x := range cur {
				if x == "this" {
					out = append(out, append([]string{}, cur...))
					return
				}
			}
			return
		}
		for _, x := range []string{"this", "target", "", "x"} {
			rec(append(cur[:len(cur):len(cur)], x))
		}
	}
	rec(nil)
	return out
}

func runC21(r *mc.Run) {
	sizesC21(r)
	X := []edgeKind{{typ: "X"}}
	gs := graphsOf(1, 3, []nodeKind{{}}, 3, X)
	var pats []ref.Part
	for n := 0; n <= 2; n++ {
		rg := rngs
		if n == 2 {
			rg = []string{"", "*", "*1..2", "*2"}
		}
		pats = append(pats, chains(n, rg, targetNames(n+1), false)...)
	}
	r.Note("patterns", int64(len(pats)))
	r.Par(len(pats), func(w *mc.W, i int) {
		orders := fewOrders
		if len(pats[i].Rels) < 2 {
			orders = allOrders
		}
		relativesCase(w, "all graphs of 1..3 nodes and 0..3 relationships", gs, pats[i], orders)
	})
	// Named relationships, also repeated
	var named []ref.Part
	for d1 := ref.Right; d1 <= ref.Both; d1++ {
		for d2 := ref.Right; d2 <= ref.Both; d2++ {
			for _, v := range targetNames(3) {
				for _, e := range [][2]string{{"e", "f"}, {"e", "e"}, {"e", ""}, {"", "e"}} {
					p := ref.Part{Rels: []ref.RelPat{{Var: e[0], Dir: d1}, {Var: e[1], Dir: d2}}}
					for _, x := range v {
						p.Nodes = append(p.Nodes, ref.NodePat{Var: x})
					}
					named = append(named, p)
				}
			}
		}
	}
	r.Par(len(named), func(w *mc.W, i int) {
		relativesCase(w, "all graphs of 1..3 nodes and 0..3 relationships", gs, named[i], fewOrders)
	})
	// Labels, types and properties
	nk := []nodeKind{{}, {labels: []string{"A"}}, {labels: []string{"B"}, props: ref.Map{"p": 1}}, {labels: []string{"A", "B"}, props: ref.Map{"p": "x"}}}
	ek := []edgeKind{{typ: "X"}, {typ: "Y", props: ref.Map{"p": 1}}, {typ: "Z"}}
	lg := append(graphsOf(1, 2, nk, 2, ek), graphsOf(3, 3, nk[:2], 2, ek[:2])...)
	r.Note("label_graphs", int64(len(lg)))
	np := []ref.NodePat{{}, {Labels: []string{"A"}}, {Labels: []string{"A", "B"}}, {Props: ref.MapX{{K: "p", E: ref.Lit{V: 1}}}}, {Labels: []string{"B"}, Props: ref.MapX{{K: "p", E: ref.Lit{V: "x"}}}}, {Labels: []string{"C"}}, {Props: ref.Param("q")}}
	rp := []ref.RelPat{{}, {Types: []string{"X"}}, {Types: []string{"Y", "Z"}}, {Props: ref.MapX{{K: "p", E: ref.Lit{V: 1}}}}, {Types: []string{"W"}}, {Types: []string{"X", "Y"}, Rng: "*1..2"}}
	var lp []ref.Part
	for _, a := range np {
		for _, e := range rp {
			for d := ref.Right; d <= ref.Both; d++ {
				for _, b := range np {
					for _, v := range [][2]string{{"this", "target"}, {"target", "this"}, {"this", "this"}, {"this", ""}} {
						a, b, e := a, b, e
						a.Var, b.Var, e.Dir = v[0], v[1], d
						lp = append(lp, ref.Part{Nodes: []ref.NodePat{a, b}, Rels: []ref.RelPat{e}})
					}
				}
			}
		}
	}
	for _, a := range np[:4] {
		for _, b := range np[:4] {
			for d := 0; d < 9; d++ {
				for _, v := range [][3]string{{"this", "", "target"}, {"target", "", "this"}, {"", "this", "target"}, {"target", "this", ""}, {"this", "target", "this"}, {"this", "target", ""}} {
					p := ref.Part{Nodes: []ref.NodePat{a, {}, b}, Rels: []ref.RelPat{{Types: []string{"X"}, Dir: ref.Dir(d % 3)}, {Dir: ref.Dir(d / 3)}}}
					for k := range v {
						p.Nodes[k].Var = v[k]
					}
					lp = append(lp, p)
				}
			}
		}
	}
	r.Note("label_patterns", int64(len(lp)))
	r.Par(len(lp), func(w *mc.W, i int) {
		relativesCase(w, "all graphs of 1..3 nodes and 0..2 relationships with labels, types and properties", lg, lp[i], fewOrders)
	})
	// Larger graphs
	var big []*ref.Graph
	n := 7
	if r.Thorough {
		n = 10
	}
	for _, s := range shapes(n) {
		big = append(big, s.g)
	}
	var sp []ref.Part
	for d := ref.Right; d <= ref.Both; d++ {
		for _, rg := range []string{"", "*", "*3", "*2..4", "*..5", "*4..", "*1..2", "*6"} {
			for m := 0; m < 4; m++ {
				a, b := ref.NodePat{Var: "this"}, ref.NodePat{Var: "target"}
				if m&1 != 0 {
					b.Labels = []string{"O"}
				}
				if m&2 != 0 {
					a, b = b, a
				}
				sp = append(sp, ref.Part{Nodes: []ref.NodePat{a, b}, Rels: []ref.RelPat{{Dir: d, Rng: rg}}})
				for d2 := ref.Right; d2 <= ref.Both; d2++ {
					sp = append(sp, ref.Part{Nodes: []ref.NodePat{a, {}, b}, Rels: []ref.RelPat{{Dir: d, Rng: rg}, {Dir: d2}}})
				}
			}
		}
	}
	for m := 0; m < 81; m++ {
		p := ref.Part{Nodes: []ref.NodePat{{Var: "this"}}}
		for k, x := 0, m; k < 4; k, x = k+1, x/3 {
			p.Nodes = append(p.Nodes, ref.NodePat{})
			p.Rels = append(p.Rels, ref.RelPat{Dir: ref.Dir(x % 3)})
		}
		p.Nodes[4].Var = "target"
		sp = append(sp, p)
	}
	r.Note("shapes", int64(len(big)))
	r.Par(len(sp), func(w *mc.W, i int) {
		relativesCase(w, fmt.Sprintf("chains, cycles, stars, trees and others of up to %d nodes", n), big, sp[i], one1)
	})
	if !r.Thorough {
		return
	}
	g4 := graphsOf(4, 4, []nodeKind{{}}, 3, X)
	r.Par(len(pats), func(w *mc.W, i int) {
		relativesCase(w, "all graphs of 4 nodes and 0..3 relationships", g4, pats[i], fewOrders)
	})
	p3 := chains(3, []string{"", "*"}, targetNames(4), false)
	r.Par(len(p3), func(w *mc.W, i int) {
		relativesCase(w, "all graphs of 1..3 nodes and 0..3 relationships", gs, p3[i], one1)
	})
}
