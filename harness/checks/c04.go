package checks

import (
	"fmt"
	"math"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C04", Level: "model_checking",
		Bounds: "each function with every string up to length 3 (thorough 5) over {a, space, two-byte letter} (conversions: over {0, 7, -, ., x}), every position -1..7 and the extreme integers, range for all bounds -4..4 (thorough -7..7) and steps -4..4 and the extremes, every number of arguments 0..4, every kind of value as argument, unknown names, labels/type for all nodes/relationships over 3 labels; calls nested in each other, per row of a MATCH, and in WHERE, properties and SET" + sizeBounds,
		Assume: []string{"negative positions and lengths, a zero step, an empty delimiter, sizes of other values, conversion of values outside of the integers, and the conversion of strings with blanks, underscores or exponents to integers are not specified"},
		Fn:     runC04,
	})
}

var kinds = []ref.V{nil, 0, 1, -1, 2, 1.5, true, false, "", "a", "12", "1.5", ref.List{}, ref.List{1, nil}, ref.Map{}, ref.Map{"year": 2020}, ref.Date{Y: 2020, M: 2, D: 29}, ref.Dur{Mo: 1}, ref.Time{H: 1}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 1}}}

func runC04(r *mc.Run) {
	sizesC04(r)
	a, b, c := ref.Param("a"), ref.Param("b"), ref.Param("c")
	n := 3
	if r.Thorough {
		n = 5
	}
	call := func(f string, args ...ref.Expr) ref.Expr { return ref.Call{F: f, Args: args} }
	strs := stringsOver("a é", n)
	strs = append(strs, "日本語", "😀x", "a😀", "\t\n\v\f\r x \r\n", "\u00a0x\u00a0", "\u2003x\u3000", "\u0085x", "abcdefghij", "\x00a", nil)
	idx := []ref.V{0, 1, 2, 3, 4, 5, 6, 7, -1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, nil}
	if r.Thorough {
		idx = append(idx, 8, 9, 10, 11, -2, math.MaxInt32, math.MaxInt32+1, math.MaxUint32)
	}
	for _, f := range []string{"size", "trim", "ltrim", "rtrim"} {
		checkPairs(r, call(f, a), strs)
	}
	checkPairs(r, call("size", a), listsOver([]ref.V{1, nil, "ab", ref.List{1, 2}}, n))
	for _, f := range []string{"left", "right", "substring"} {
		checkPairs(r, call(f, a, b), strs, idx)
	}
	checkPairs(r, call("substring", a, b, c), strs, idx, idx)
	ds := append(stringsOver("a é", 2), "aaa", "é é", nil)
	checkPairs(r, call("split", a, b), append(stringsOver("a é", n+1), "ababab", "", nil), ds)
	// Conversions
	nums := stringsOver("07-.x", n)
	nums = append(nums, "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e3", "1E3", "-1.5e-3", "+5", " 5", "5 ", "0x10", "1_0", "Inf", "NaN", "inf", "abc", "true", "null", "٣", "1,5", "--5",
		0, 1, -1, math.MaxInt64, math.MinInt64, 0.0, 0.5, -0.5, 1.9999, -1.9999, 1e15, 9007199254740993.0, 1e300, math.Inf(1), math.Inf(-1), true, false, nil, ref.List{}, ref.List{1}, ref.Map{"a": 1}, ref.Date{Y: 2020, M: 1, D: 1}, ref.Dur{D: 1})
	for _, f := range []string{"toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull"} {
		checkPairs(r, call(f, a), nums)
	}
	// range
	k := 4
	if r.Thorough {
		k = 7
	}
	var rng []ref.V
	for i := -k; i <= k; i++ {
		rng = append(rng, i)
	}
	checkPairs(r, call("range", a, b), rng, rng)
	steps := append([]ref.V{}, rng...)
	steps = append(steps, 100, -100, math.MaxInt64, math.MinInt64)
	checkPairs(r, call("range", a, b, c), rng, rng, steps)
	ext := []ref.V{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 3, math.MinInt64, math.MinInt64 + 1, math.MinInt64 + 3}
	checkPairs(r, call("range", a, b, c), ext, ext, []ref.V{1, -1, 2, -2, 3, 1 << 62, -(1 << 62), math.MaxInt64, math.MinInt64})
	checkPairs(r, call("range", a, b, c), []ref.V{-1, 0, 1, nil}, []ref.V{math.MaxInt64, math.MinInt64, nil}, []ref.V{1 << 61, -(1 << 61), 1 << 62, math.MaxInt64, math.MinInt64, nil})
	// Arity, kinds of arguments
	var names []string
	for f := range ref.Arity {
		names = append(names, f)
	}
	names = append(names, "nosuch", "toString", "SIZE", "Range", "tointeger", "a.b", "size.x", "x.size", "left.right.trim")
	few := []ref.V{nil, 1, "ab", ref.List{1}, ref.Map{"year": 2020}}
	for _, f := range names {
		for n := 0; n <= 4; n++ {
			var args []ref.Expr
			doms := [][]ref.V{}
			for i := 0; i < n; i++ {
				args = append(args, ref.Param(pnames[i]))
				d := kinds
				if n > 2 {
					d = few
				}
				doms = append(doms, d)
			}
			if n == 0 {
				doms = [][]ref.V{{nil}}
			}
			checkPairs(r, call(f, args...), doms...)
		}
	}
	// Nested calls
	one := []string{"size", "trim", "ltrim", "rtrim", "toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull"}
	nested := []ref.V{" a ", "7", " 7 ", "é ", "x", nil, 7, -1.5, ref.List{1, 2}}
	for _, f := range one {
		for _, g := range one {
			checkPairs(r, call(f, call(g, a)), nested)
			for _, h := range []string{"left", "right", "substring"} {
				checkPairs(r, call(f, call(h, call(g, a), b)), nested, []ref.V{0, 1, 2, 3, nil})
			}
			checkPairs(r, call("range", call(f, a), call(g, b)), nested, nested)
		}
	}
	// labels and type
	r.Seq(func(w *mc.W) {
		g := ref.NewGraph()
		ls := []string{"A", "B", "c d"}
		for m := 0; m < 8; m++ {
			var l []string
			for i := range ls {
				if m&(1<<i) != 0 {
					l = append(l, ls[i])
				}
			}
			g.AddNode(l, ref.Map{"k": m})
		}
		for i, t := range []string{"X", "Y", "z z", ""} {
			g.AddEdge(ref.NodeID(i), ref.NodeID(i+1), t, ref.Map{"k": i})
		}
		world := sut.Build(g, sut.BuildOpts{})
		vals := []ref.V{nil, 1, "a", ref.List{}}
		for _, id := range g.NodeIDs() {
			vals = append(vals, id)
		}
		for _, id := range g.EdgeIDs() {
			vals = append(vals, id)
		}
		vals = append(vals, ref.PathV{0, 1})
		for _, f := range []string{"labels", "type", "size"} {
			text := "RETURN " + f + "(x)"
			w.Case(text, func() string {
				q, err := w.Cache.Parse(text)
				if err != nil {
					return err.Error()
				}
				for _, v := range vals {
					wv, wst := call(f, ref.Var("x")).Eval(&ref.Env{G: g, Vars: map[string]ref.V{"x": v}})
					gv, gerr, bad := evalExpr(world, q, world.Ctx(map[string]ref.V{"x": v}, nil))
					w.R.Trans(1)
					w.R.Trace(1)
					if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
						return text + " for x=" + ref.Key(v) + " " + s
					}
				}
				return ""
			})
		}
		// per row, and in other places of a query
		qs := []ref.Query{}
		nm := func(v string) ref.Part { return ref.Part{Nodes: []ref.NodePat{{Var: v}}} }
		k := ref.Prop{E: ref.Var("n"), K: "k"}
		for _, e := range []ref.Expr{call("labels", ref.Var("n")), call("size", call("labels", ref.Var("n"))), call("range", ref.Lit{V: 0}, k), call("left", ref.Lit{V: "abcdefgh"}, k), call("toFloat", k), call("substring", ref.Lit{V: "abcdefgh"}, k, ref.Lit{V: 2})} {
			qs = append(qs, ref.Q([]ref.Match{{Parts: []ref.Part{nm("n")}}}, nil, &ref.Return{Items: []ref.Item{{E: ref.Var("n")}, {E: e}}}))
			qs = append(qs, ref.Q([]ref.Match{{Parts: []ref.Part{nm("n")}}}, []ref.Update{ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "n", Key: "z", E: e}}}}, &ref.Return{Items: []ref.Item{{E: ref.Prop{E: ref.Var("n"), K: "z"}}}}))
		}
		qs = append(qs, ref.Q([]ref.Match{{Parts: []ref.Part{nm("n")}, Where: ref.C1("=", call("size", call("labels", ref.Var("n"))), ref.Lit{V: 2})}}, nil, &ref.Return{Items: []ref.Item{{E: ref.Var("n")}}}))
		qs = append(qs, ref.Q([]ref.Match{{Parts: []ref.Part{{Nodes: []ref.NodePat{{Var: "n", Props: ref.MapX{{K: "k", E: call("toInteger", ref.Lit{V: "3"})}}}}}}}}, nil, &ref.Return{Items: []ref.Item{{E: ref.Var("n")}}}))
		qs = append(qs, ref.Q([]ref.Match{{Parts: []ref.Part{{Nodes: []ref.NodePat{{Var: "n"}, {Var: "m"}}, Rels: []ref.RelPat{{Var: "e"}}}}}}, nil, &ref.Return{Items: []ref.Item{{E: ref.Var("n")}, {E: call("type", ref.Var("e"))}}}))
		for _, q := range qs {
			runQuery(w, g, q, qopts{})
		}
	})
}

var _ = fmt.Sprint
