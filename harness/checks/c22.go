package checks

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C22", Level: "model_checking",
		Bounds: "all values built from the scalar alphabet by lists and maps up to depth 2, in all pairs and (of a part of them) all triples; all native kinds with their boundary values; all unions, columns and products of result sets of up to 3 rows of the row alphabet, with every point at which the caller stops a product" + sizeBounds,
		Assume: []string{"NaN is left out", "native kinds ValueOf does not list are left out"},
		Fn:     runC22,
	})
}

func sameWorld(w *mc.W) *sut.World {
	if x, ok := w.Data["c22"]; ok {
		return x.(*sut.World)
	}
	g := ref.NewGraph()
	a := g.AddNode([]string{"A"}, ref.Map{"p": 1})
	b := g.AddNode([]string{"A"}, ref.Map{"p": 1})
	g.AddEdge(a, b, "X", nil)
	g.AddEdge(b, a, "X", nil)
	g.AddEdge(a, b, "X", nil)
	world := sut.Build(g, sut.BuildOpts{})
	w.Data["c22"] = world
	return world
}

func valueAlphabet(depth2 bool) []ref.V {
	sc := []ref.V{nil, 0, 1, -1, 2, 1.0, 0.0, math.Copysign(0, -1), 1.5, math.MaxInt64, float64(1 << 62), 1 << 62, 1<<62 + 1, math.MinInt64, -9223372036854775808.0, 9223372036854775807.0, math.Inf(1), 1 << 53, 1<<53 + 1, 9007199254740992.0, true, false, "", "1", "a", "A", "é", "e\u0301",
		ref.Date{Y: 2020, M: 1, D: 2}, ref.Date{Y: 2020, M: 2, D: 1}, ref.Time{H: 1}, ref.Time{M: 1}, ref.Time{N: 1}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 2}}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 2}, Time: ref.Time{N: 1}}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 2}, Time: ref.Time{H: 1}},
		ref.Dur{Mo: 1}, ref.Dur{D: 30}, ref.Dur{D: 1}, ref.Dur{S: 86400}, ref.Dur{S: 1}, ref.Dur{N: 1}, ref.Dur{},
		ref.NodeID(0), ref.NodeID(1), ref.EdgeID(0), ref.EdgeID(1), ref.EdgeID(2), ref.PathV{0, 1}, ref.PathV{1, 0}, ref.PathV{2, 1}, ref.PathV{0, 1, 2}}
	out := append([]ref.V{}, sc...)
	small := []ref.V{nil, 1, 1.0, 2, true, "a", "1", ref.Date{Y: 2020, M: 1, D: 2}, ref.NodeID(0), ref.NodeID(1), ref.EdgeID(0)}
	var one []ref.V
	one = append(one, ref.List{}, ref.Map{})
	for _, v := range small {
		one = append(one, ref.List{v}, ref.Map{"a": v}, ref.Map{"b": v})
	}
	for i, v := range small[:6] {
		for j, u := range small[:6] {
			if i < 3 || j < 3 {
				one = append(one, ref.List{v, u}, ref.Map{"a": v, "b": u})
			}
		}
	}
	one = append(one, ref.Map{"a": 1, "c": 2}, ref.Map{"b": 2, "c": 1}, ref.List{1, 2, 1}, ref.List{1, 1, 2}, ref.Map{"": 1})
	out = append(out, one...)
	if depth2 {
		for i, v := range one {
			if i%3 == 0 || i < 20 {
				out = append(out, ref.List{v}, ref.Map{"a": v}, ref.List{v, 1}, ref.List{1, v}, ref.Map{"a": v, "b": nil})
			}
		}
	}
	return out
}

func safely(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panics: %v", r)
		}
	}()
	return f()
}

func runC22(r *mc.Run) {
	sizesC22(r)
	vals := valueAlphabet(true)
	r.Note("values", int64(len(vals)))
	r.Par(len(vals), func(w *mc.W, i int) {
		world := sameWorld(w)
		for j := range vals {
			a, b := vals[i], vals[j]
			w.Case("same("+ref.Key(a)+", "+ref.Key(b)+")", func() string {
				return safely(func() string {
					want := ref.Same(a, b)
					r.State(ref.Key(a) + "~" + ref.Key(b))
					r.Trans(1)
					va, vb := world.Value(a), world.Value(b)
					if got := oc.IsValueSame(va, vb); got != want {
						return fmt.Sprintf("is %v, expected %v", got, want)
					}
					// As the program would see them: through ValueOf, and
					// as an lvalue
					if got := oc.IsValueSame(oc.ValueOf(world.Native(a)), oc.NewLValue(vb)); got != want {
						return fmt.Sprintf("is %v through ValueOf and NewLValue, expected %v", got, want)
					}
					return ""
				})
			})
		}
	})
	// The relation itself, on the implementation alone
	few := vals
	if !r.Thorough && len(few) > 140 {
		few = few[:140]
	}
	r.Par(len(few), func(w *mc.W, i int) {
		world := sameWorld(w)
		nv := make([]oc.Value, len(few))
		for j := range few {
			nv[j] = world.Value(few[j])
		}
		w.Case("equivalence of "+ref.Key(few[i]), func() string {
			return safely(func() string {
				if !oc.IsValueSame(nv[i], nv[i]) {
					return "it is not the same as itself"
				}
				for j := range nv {
					ij := oc.IsValueSame(nv[i], nv[j])
					if ij != oc.IsValueSame(nv[j], nv[i]) {
						return "not symmetric with " + ref.Key(few[j])
					}
					if !ij {
						continue
					}
					for k := range nv {
						r.Trans(1)
						if oc.IsValueSame(nv[j], nv[k]) && !oc.IsValueSame(nv[i], nv[k]) {
							return "not transitive over " + ref.Key(few[j]) + " and " + ref.Key(few[k])
						}
					}
				}
				return ""
			})
		})
	})
	runNatives(r)
	runResultSets(r)
}

// natives are the kinds ValueOf converts
func runNatives(r *mc.Run) {
	type nat struct {
		in   interface{}
		want ref.V
	}
	var ns []nat
	for _, i := range []int{0, 1, -1, 127, -128} {
		ns = append(ns, nat{int8(i), i}, nat{int16(i), i}, nat{int32(i), i}, nat{int64(i), i}, nat{i, i})
	}
	for _, i := range []int{0, 1, 127, 128, 255} {
		ns = append(ns, nat{uint8(i), i}, nat{uint16(i), i}, nat{uint32(i), i})
	}
	for _, i := range []int{32767, -32768, 256} {
		ns = append(ns, nat{int16(i), i}, nat{int32(i), i}, nat{int64(i), i})
	}
	for _, i := range []int{65535, 32768} {
		ns = append(ns, nat{uint16(i), i}, nat{uint32(i), i})
	}
	for _, i := range []int{math.MaxInt32, math.MinInt32} {
		ns = append(ns, nat{int32(i), i}, nat{int64(i), i})
	}
	ns = append(ns, nat{uint32(math.MaxUint32), math.MaxUint32}, nat{int64(math.MaxInt64), math.MaxInt64}, nat{int64(math.MinInt64), math.MinInt64}, nat{int64(1<<53 + 1), 1<<53 + 1}, nat{math.MaxInt64, math.MaxInt64})
	for _, f := range []float64{0, 1, -1, 0.5, 1.5, 1 << 24, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1)} {
		ns = append(ns, nat{float32(f), f}, nat{f, f})
	}
	ns = append(ns, nat{float32(0.1), float64(float32(0.1))}, nat{0.1, 0.1}, nat{math.MaxFloat64, math.MaxFloat64}, nat{true, true}, nat{false, false}, nat{"", ""}, nat{"a\x00é", "a\x00é"}, nat{nil, nil})
	for _, v := range valueAlphabet(false) {
		v := v
		ns = append(ns, nat{v, v})
	}
	errX := errors.New("x")
	r.Seq(func(w *mc.W) {
		world := sameWorld(w)
		for i, n := range ns {
			in := n.in
			switch in.(type) {
			case ref.List, ref.Map, ref.Date, ref.Time, ref.DateTime, ref.Dur, ref.NodeID, ref.EdgeID, ref.PathV:
				in = world.Native(in)
			}
			n := n
			w.Case(fmt.Sprintf("ValueOf #%d %T(%s)", i, n.in, ref.Key(n.want)), func() string {
				return safely(func() string {
					r.State(fmt.Sprintf("nat%T%s", in, ref.Key(n.want)))
					r.Trans(1)
					v := oc.ValueOf(in)
					if v == nil {
						return "gives no Value"
					}
					if got := world.Model(v.Get()); ref.Key(got) != ref.Key(n.want) {
						return "gives " + ref.Key(got)
					}
					if v2 := oc.ValueOf(v); ref.Key(world.Model(v2.Get())) != ref.Key(n.want) {
						return "gives another value when converted again"
					}
					e, err := v.Evaluate(nil)
					if err != nil || ref.Key(world.Model(e.Get())) != ref.Key(n.want) {
						return "does not evaluate to itself"
					}
					prim := true
					switch n.want.(type) {
					case nil, ref.List, ref.Map, ref.NodeID, ref.EdgeID, ref.PathV:
						prim = false
					}
					if oc.IsValuePrimitive(v) != prim {
						return fmt.Sprintf("IsValuePrimitive is %v", !prim)
					}
					// The accessors
					gi, err := oc.ValueAsInt(v)
					if wi, ok := n.want.(int); ok && (err != nil || gi != wi) || !ok && (err != oc.ErrIntValueRequired || gi != 0) {
						return fmt.Sprintf("ValueAsInt gives %v, %v", gi, err)
					}
					gs, err := oc.ValueAsString(v)
					if ws, ok := n.want.(string); ok && (err != nil || gs != ws) || !ok && (err != oc.ErrStringValueRequired || gs != "") {
						return fmt.Sprintf("ValueAsString gives %q, %v", gs, err)
					}
					gb, ok := oc.ValueAsBool(v)
					wb, isBool := n.want.(bool)
					if ok != isBool || gb != wb {
						return fmt.Sprintf("ValueAsBool gives %v, %v", gb, ok)
					}
					// With the error of an evaluation
					if i, err := oc.ValueAsInt(v, errX); err != errX || i != 0 {
						return fmt.Sprintf("ValueAsInt with an error gives %v, %v", i, err)
					}
					if s, err := oc.ValueAsString(v, errX); err != errX || s != "" {
						return fmt.Sprintf("ValueAsString with an error gives %q, %v", s, err)
					}
					var noErr error
					if i, err := oc.ValueAsInt(v, noErr); i != gi || (err == nil) != (world.Model(v.Get()) == ref.V(gi)) {
						return fmt.Sprintf("ValueAsInt with no error gives %v, %v", i, err)
					}
					if s, err := oc.ValueAsString(v, noErr); s != gs || (err == nil) != (world.Model(v.Get()) == ref.V(gs)) {
						return fmt.Sprintf("ValueAsString with no error gives %q, %v", s, err)
					}
					// As an lvalue
					l := oc.NewLValue(v)
					if ref.Key(world.Model(l.Get())) != ref.Key(n.want) || l.IsConst() {
						return "NewLValue changes it"
					}
					l.Set("changed")
					if l.Get() != "changed" {
						return "an lvalue made of it cannot be set"
					}
					if ref.Key(world.Model(v.Get())) != ref.Key(n.want) {
						return "setting an lvalue made of it changes the value"
					}
					return ""
				})
			})
		}
		// Kinds without a model counterpart
		sets := []lpg.StringSet{lpg.NewStringSet(), lpg.NewStringSet("a"), lpg.NewStringSet("b"), lpg.NewStringSet("a", "b"), lpg.NewStringSet("b", "a")}
		setText := []string{"", "a", "b", "a,b", "a,b"}
		edges := [][]*lpg.Edge{{}, {world.Edge(0)}, {world.Edge(1)}, {world.Edge(0), world.Edge(1)}, {world.Edge(1), world.Edge(0)}}
		var others []interface{}
		var text []string
		for i := range sets {
			others, text = append(others, sets[i]), append(text, "set "+setText[i])
		}
		for i := range edges {
			others, text = append(others, edges[i]), append(text, fmt.Sprintf("relationships #%d", i))
		}
		for i := 0; i < 4; i++ {
			others, text = append(others, lpg.PathElement{Edge: world.Edge(ref.EdgeID(i / 2)), Reverse: i%2 == 1}), append(text, fmt.Sprintf("step #%d", i))
		}
		others, text = append(others, nil, 1, "a", []oc.Value{oc.RValue{Value: "a"}}, world.Node(0), world.Native(ref.EdgeID(0))), append(text, "null", "1", "'a'", "['a']", "n0", "e0")
		for i := range others {
			for j := range others {
				i, j := i, j
				w.Case("same("+text[i]+", "+text[j]+")", func() string {
					return safely(func() string {
						r.Trans(1)
						if got := oc.IsValueSame(oc.ValueOf(others[i]), oc.ValueOf(others[j])); got != (text[i] == text[j]) {
							return fmt.Sprintf("is %v", got)
						}
						return ""
					})
				})
			}
		}
	})
}

func rowsKey(rows []ref.Row) string {
	var p []string
	for _, r := range rows {
		p = append(p, r.Key())
	}
	return "[" + strings.Join(p, " ") + "]"
}

func runResultSets(r *mc.Run) {
	alpha := []ref.Row{{"x": 1}, {"x": 1.0}, {"x": nil}, {}, {"x": 1, "y": nil}, {"y": 1}, {"x": ref.List{1}}, {"x": ref.List{1.0}}, {"x": ref.NodeID(0)}, {"x": ref.NodeID(1), "y": 1}, {"x": ref.Map{"a": nil}}, {"x": ref.Map{"b": nil}}, {"x": 1, "y": 2}, {"x": 2, "y": 1}}
	var seqs [][]ref.Row
	var gen func(cur []ref.Row, n int)
	gen = func(cur []ref.Row, n int) {
		seqs = append(seqs, append([]ref.Row{}, cur...))
		if n == 0 {
			return
		}
		for _, a := range alpha {
			gen(append(cur[:len(cur):len(cur)], a), n-1)
		}
	}
	gen(nil, 3)
	sort.SliceStable(seqs, func(i, j int) bool { return len(seqs[i]) < len(seqs[j]) })
	short := 0
	for short < len(seqs) && len(seqs[short]) <= 2 {
		short++
	}
	if r.Thorough {
		short = len(seqs)
	}
	build := func(world *sut.World, rows []ref.Row) *oc.ResultSet {
		rs := oc.NewResultSet()
		for _, row := range rows {
			m := map[string]oc.Value{}
			for k, v := range row {
				m[k] = world.Value(v)
			}
			if err := rs.Append(m); err != nil {
				panic(err)
			}
		}
		return rs
	}
	checkNodes := func(world *sut.World, rs *oc.ResultSet, rows []ref.Row) string {
		for _, row := range rows {
			for _, v := range row {
				if n, ok := v.(ref.NodeID); ok && !rs.Nodes.Has(world.Node(n)) {
					return "the node " + ref.Key(n) + " of a row is not among the nodes of the result set"
				}
			}
		}
		return ""
	}
	r.Note("row_sequences", int64(len(seqs)))
	r.Par(len(seqs), func(w *mc.W, i int) {
		world := sameWorld(w)
		a := seqs[i]
		// Columns
		for _, col := range []string{"x", "y", "z"} {
			w.Case("column "+col+" of "+rowsKey(a), func() string {
				return safely(func() string {
					rs := build(world, a)
					want := ref.List{}
					for _, row := range a {
						if v, ok := row[col]; ok {
							want = append(want, v)
						}
					}
					r.Trans(1)
					if got := world.Model(rs.Column(col)); ref.Key(got) != ref.Key(want) {
						return "is " + ref.Key(got) + ", expected " + ref.Key(want)
					}
					return checkNodes(world, rs, a)
				})
			})
		}
		w.Case("product of the columns of "+rowsKey(a), func() string {
			return safely(func() string { return columnProduct(r, world, build(world, a), a) })
		})
		for j := 0; j < short; j++ {
			b := seqs[j]
			for _, all := range []bool{true, false} {
				w.Case(fmt.Sprintf("union (all %v) of %s and %s", all, rowsKey(a), rowsKey(b)), func() string {
					return safely(func() string {
						want := append(append([]ref.Row{}, a...), b...)
						if !all {
							want = ref.Distinct(want)
						}
						ra, rb := build(world, a), build(world, b)
						if err := ra.Union(*rb, all); err != nil {
							return "fails: " + err.Error()
						}
						r.State("u" + rowsKey(want))
						r.Trans(1)
						if got := rowsKey(world.RowsOf(*ra)); got != rowsKey(want) {
							return "is " + got + ", expected " + rowsKey(want)
						}
						if got := rowsKey(world.RowsOf(*rb)); got != rowsKey(b) {
							return "changes the second result set to " + got
						}
						return checkNodes(world, ra, want)
					})
				})
			}
			if len(b) <= 1 || len(a) <= 2 && j%3 == 0 {
				w.Case(fmt.Sprintf("add %s to %s", rowsKey(b), rowsKey(a)), func() string {
					return safely(func() string {
						ra, rb := build(world, a), build(world, b)
						ra.Add(*rb)
						r.Trans(1)
						want := append(append([]ref.Row{}, a...), b...)
						if got := rowsKey(world.RowsOf(*ra)); got != rowsKey(want) {
							return "is " + got
						}
						return checkNodes(world, ra, want)
					})
				})
			}
		}
	})
	// Products of up to three result sets, of up to 2 rows
	few := []ref.Row{{"x": 1}, {"x": 2}, {"y": 1}, {"x": nil, "z": 3}, {}}
	var sets [][]ref.Row
	sets = append(sets, nil)
	for _, a := range few {
		sets = append(sets, []ref.Row{a})
		for _, b := range few {
			sets = append(sets, []ref.Row{a, b})
		}
	}
	sets = append(sets, []ref.Row{{"w": 1}, {"w": 2}, {"w": 3}}, []ref.Row{{"v": 1}, {"v": 2}, {"v": 3}, {"v": 4}})
	var combos [][][]ref.Row
	combos = append(combos, nil)
	for _, a := range sets {
		combos = append(combos, [][]ref.Row{a})
		for _, b := range sets {
			combos = append(combos, [][]ref.Row{a, b})
			for k, c := range sets {
				if r.Thorough || k%4 == 0 || k >= len(sets)-2 {
					combos = append(combos, [][]ref.Row{a, b, c})
				}
			}
		}
	}
	r.Note("products", int64(len(combos)))
	r.Par(len(combos), func(w *mc.W, i int) {
		world := sameWorld(w)
		var name []string
		for _, s := range combos[i] {
			name = append(name, rowsKey(s))
		}
		for _, all := range []bool{true, false} {
			for mode := 0; mode < 3; mode++ {
				w.Case(fmt.Sprintf("product (all %v, filter %d) of %s", all, mode, strings.Join(name, " x ")), func() string {
					return safely(func() string {
						// Expected combinations
						want := []ref.Row{{}}
						empty := false
						for _, s := range combos[i] {
							if len(s) == 0 {
								empty = true
								continue
							}
							var next []ref.Row
							for _, p := range want {
								for _, q := range s {
									n := ref.Row{}
									for k, v := range p {
										n[k] = v
									}
									for k, v := range q {
										n[k] = v
									}
									next = append(next, n)
								}
							}
							want = next
						}
						if empty && !all {
							want = nil
						}
						accept := func(n int, row ref.Row) bool {
							switch mode {
							case 1:
								return ref.Key(row["x"]) == "i1"
							case 2:
								return false
							}
							return true
						}
						var in []oc.ResultSet
						for _, s := range combos[i] {
							in = append(in, *build(world, s))
						}
						calls := []ref.Row{}
						got := oc.CartesianProduct(in, all, func(m map[string]oc.Value) bool {
							row := ref.Row{}
							for k, v := range m {
								row[k] = world.Model(v)
							}
							calls = append(calls, row)
							return accept(len(calls), row)
						})
						r.Trans(1)
						if !(empty && !all) && strings.Join(sortedRows(calls), ";") != strings.Join(sortedRows(want), ";") {
							return "visits " + rowsKey(calls) + ", expected " + rowsKey(want)
						}
						var kept []ref.Row
						for n, row := range want {
							if accept(n, row) {
								kept = append(kept, row)
							}
						}
						if rows := world.RowsOf(got); strings.Join(sortedRows(rows), ";") != strings.Join(sortedRows(kept), ";") {
							return "gives " + rowsKey(rows) + ", expected " + rowsKey(kept)
						}
						for k := range combos[i] {
							if rowsKey(world.RowsOf(in[k])) != name[k] {
								return "changes its input"
							}
						}
						return ""
					})
				})
			}
		}
	})
}

// columnProduct checks ResultSet.CartesianProduct, which combines the
// values of the columns of the first row
func columnProduct(r *mc.Run, world *sut.World, rs *oc.ResultSet, rows []ref.Row) string {
	var want []string
	if len(rows) > 0 && len(rows[0]) > 0 {
		var cols []string
		for k := range rows[0] {
			cols = append(cols, k)
		}
		sort.Strings(cols)
		var gen func(i int, cur ref.Row)
		gen = func(i int, cur ref.Row) {
			if i == len(cols) {
				want = append(want, cur.Key())
				return
			}
			for _, row := range rows {
				n := ref.Row{}
				for k, v := range cur {
					n[k] = v
				}
				if v, ok := row[cols[i]]; ok {
					n[cols[i]] = v
				} else {
					n[cols[i]] = ref.Raw("none")
				}
				gen(i+1, n)
			}
		}
		gen(0, ref.Row{})
	}
	sort.Strings(want)
	for stop := 0; stop <= len(want)+1; stop++ {
		var got []string
		res := rs.CartesianProduct(func(m map[string]oc.Value) bool {
			row := ref.Row{}
			for k, v := range m {
				if v == nil {
					row[k] = ref.Raw("none")
				} else {
					row[k] = world.Model(v)
				}
			}
			got = append(got, row.Key())
			return stop == 0 || len(got) < stop
		})
		r.Trans(1)
		stopped := stop > 0 && stop <= len(want)
		if res == stopped {
			return fmt.Sprintf("returns %v when it is stopped after %d of %d combinations", res, stop, len(want))
		}
		if stopped {
			if len(got) != stop {
				return fmt.Sprintf("visits %d combinations when it is stopped after %d", len(got), stop)
			}
			continue
		}
		sort.Strings(got)
		if strings.Join(got, ";") != strings.Join(want, ";") {
			return "visits " + strings.Join(got, " ") + ", expected " + strings.Join(want, " ")
		}
	}
	r.State("cp" + rowsKey(rows))
	return ""
}
