package checks

import (
	"fmt"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// sharedMaps sets the entries of a map that is the property of two nodes, a
// relationship's, a parameter's and a value the program holds: only the
// property that is named changes
func sharedMaps(r *mc.Run) {
	mk := func() ref.Map { return ref.Map{"k": 1, "l": ref.Map{"x": 1}} }
	// Each gives nodes :A and :B, each with the map $m as p, and another
	// map q
	ways := [][]string{
		{"CREATE (a:A {p: $m, q: $m}), (b:B {p: $m, q: $m})"},
		{"CREATE (a:A {p: $m, q: $m})-[:X {p: $m}]->(b:B {p: $m, q: $m})"},
		{"CREATE (a:A) SET a.p = $m, a.q = $m CREATE (b:B) SET b.p = $m, b.q = $m"},
		{"CREATE (a:A {p: $m, q: $m}) CREATE (b:B) SET b = a"},
		{"CREATE (a:A {p: $m, q: $m})", "MATCH (a) CREATE (b:B) SET b += a"},
		{"CREATE (a:A {p: $m, q: $m})", "MATCH (a) CREATE (b:B {p: a.p, q: a.q})"},
		{"CREATE (a:A {p: $m, q: $m})", "MATCH (a) CREATE (b:B) SET b.p = a.p SET b.q = b.p"},
		{"CREATE (a:A), (b:B)", "MATCH (n) SET n = {p: $m, q: $m}"},
		{"CREATE (a:A), (b:B)", "MATCH (n) SET n += $two"},
		{"CREATE (a:A), (b:B)", "MATCH (n) SET n.p = $m, n.q = n.p"},
		{"MERGE (a:A) ON CREATE SET a.p = $m, a.q = a.p", "MATCH (a) MERGE (b:B) ON CREATE SET b = a"},
	}
	type change struct {
		text string
		want func(ref.Map)
	}
	changes := []change{
		{"k = 5", func(m ref.Map) { m["k"] = 5 }},
		{"n = 'x'", func(m ref.Map) { m["n"] = "x" }},
		{"k = null", func(m ref.Map) { delete(m, "k") }},
		{"l = 2", func(m ref.Map) { m["l"] = 2 }},
		{"k = $two", func(m ref.Map) { m["k"] = ref.Map{"p": mk(), "q": mk()} }},
		{"l.x = 7", func(m ref.Map) { m["l"] = ref.Map{"x": 7} }},
		{"l.y = 8", func(m ref.Map) { m["l"] = ref.Map{"x": 1, "y": 8} }},
	}
	r.Note("ways_to_share_a_map", int64(len(ways)*len(changes)))
	r.Par(len(ways), func(w *mc.W, i int) {
		for _, label := range []string{"A", "B"} {
			for _, key := range []string{"p", "q"} {
				for _, c1 := range changes {
					for _, c2 := range append([]change{{}}, changes...) {
						if strings.HasPrefix(c1.text, "l = ") && strings.HasPrefix(c2.text, "l.") {
							// An error: the map has a number there
							continue
						}
						text := []string{"SET x." + key + "." + c1.text}
						if c2.want != nil {
							text = append(text, "SET x."+key+"."+c2.text)
						}
						upd := "MATCH (x:" + label + ") " + strings.Join(text, " ")
						w.Case(strings.Join(ways[i], "; ")+"; "+upd, func() string {
							world := sut.NewWorld()
							ctx := world.Ctx(nil, map[string]ref.V{"m": mk(), "two": ref.Map{"p": mk(), "q": mk()}})
							for _, q := range ways[i] {
								if _, err := oc.ParseAndEvaluate(q, ctx); err != nil {
									return q + " fails: " + err.Error()
								}
							}
							want := map[string]ref.V{"A.p": mk(), "A.q": mk(), "B.p": mk(), "B.q": mk(), "$m": mk(), "$two": ref.Map{"p": mk(), "q": mk()}}
							r.Trans(1)
							if _, err := oc.ParseAndEvaluate(upd, ctx); err != nil {
								return "fails: " + err.Error()
							}
							m := want[label+"."+key].(ref.Map)
							c1.want(m)
							if c2.want != nil {
								if strings.HasPrefix(c2.text, "l.") && strings.HasPrefix(c1.text, "l.") {
									x := m["l"].(ref.Map)
									n := ref.Map{}
									c2.want(n)
									for k, v := range n["l"].(ref.Map) {
										if k != "x" || v != 1 {
											x[k] = v
										}
									}
								} else {
									c2.want(m)
								}
							}
							for it := world.G.GetNodes(); it.Next(); {
								n := it.Node()
								for _, k := range []string{"p", "q"} {
									at := n.GetLabels().String()
									at = strings.TrimPrefix(at, ":") + "." + k
									v, _ := n.GetProperty(k)
									r.State(at + ref.Key(want[at]))
									if got := world.Model(v); ref.Key(got) != ref.Key(want[at]) {
										return fmt.Sprintf("%s is %s, expected %s", at, ref.Key(got), ref.Key(want[at]))
									}
								}
							}
							for it := world.G.GetEdges(); it.Next(); {
								v, _ := it.Edge().GetProperty("p")
								if got := world.Model(v); ref.Key(got) != ref.Key(mk()) {
									return fmt.Sprintf("the relationship's p is %s", ref.Key(got))
								}
							}
							for _, k := range []string{"$m", "$two"} {
								v, err := ctx.GetParameter(k)
								if err != nil {
									return k + " is gone"
								}
								if got := world.Model(v); ref.Key(got) != ref.Key(want[k]) {
									return fmt.Sprintf("%s is %s, expected %s", k, ref.Key(got), ref.Key(want[k]))
								}
							}
							return ""
						})
					}
				}
			}
		}
	})
}
