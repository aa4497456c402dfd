package checks

import (
	"math"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C03", Level: "model_checking",
		Bounds: "string operators on all pairs of strings up to length 3 over {a,b} and selected others; IN, index and slices for all lists up to length 3 (thorough 4) over 4 elements and all indexes in -5..5 and extremes; CASE with up to 3 alternatives over all condition values; nesting of these operators to depth 2" + sizeBounds,
		Assume: []string{"null operands of STARTS WITH, ENDS WITH and CONTAINS, negative slice bounds, and IN with incomparable elements are not specified"},
		Fn:     runC03,
	})
}

func stringsOver(alpha string, max int) []ref.V {
	out := []ref.V{""}
	prev := []string{""}
	for n := 1; n <= max; n++ {
		var next []string
		for _, p := range prev {
			for _, c := range alpha {
				next = append(next, p+string(c))
			}
		}
		for _, s := range next {
			out = append(out, s)
		}
		prev = next
	}
	return out
}

func listsOver(elems []ref.V, max int) []ref.V {
	out := []ref.V{ref.List{}}
	prev := []ref.List{{}}
	for n := 1; n <= max; n++ {
		var next []ref.List
		for _, p := range prev {
			for _, e := range elems {
				next = append(next, append(append(ref.List{}, p...), e))
			}
		}
		for _, l := range next {
			out = append(out, l)
		}
		prev = next
	}
	return out
}

// checkPairs evaluates a two-operand shape for all a in as, b in bs
// (and c in cs)
func checkPairs(r *mc.Run, e ref.Expr, doms ...[]ref.V) {
	r.Par(len(doms[0]), func(w *mc.W, i int) {
		checkDoms(w, e, append([][]ref.V{{doms[0][i]}}, doms[1:]...))
	})
}

func checkDoms(w *mc.W, e ref.Expr, doms [][]ref.V) {
	text := "RETURN " + e.Str()
	w.Case(text+" for $a="+ref.Key(doms[0][0]), func() string {
		q, err := w.Cache.Parse(text)
		if err != nil {
			return text + " does not parse: " + err.Error()
		}
		world := exprWorld(w)
		idx := make([]int, len(doms))
		var cnt, un, er int64
		defer func() {
			w.R.Trans(cnt)
			w.R.Trace(cnt)
			w.R.Note("unspecified_evaluations", un)
			w.R.Note("error_evaluations", er)
		}()
		for {
			params := map[string]ref.V{}
			for i, k := range idx {
				params[pnames[i]] = doms[i][k]
			}
			wv, wst := e.Eval(&ref.Env{Params: params})
			var gv ref.V
			var gerr error
			var bad string
			if wst != ref.UNSPEC || !hugeRange(e, params) {
				gv, gerr, bad = evalExpr(world, q, world.Ctx(nil, params))
			}
			cnt++
			switch wst {
			case ref.UNSPEC:
				un++
			case ref.ERR:
				er++
			default:
				w.R.State(text + ref.Key(wv))
			}
			if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
				return text + envText(params) + " " + s
			}
			if cnt == 7 {
				w.R.Sample(func() string { return text + envText(params) + " -> " + want(wv, wst) })
			}
			i := 0
			for ; i < len(idx); i++ {
				idx[i]++
				if idx[i] < len(doms[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				return ""
			}
		}
	})
}

func runC03(r *mc.Run) {
	sizesC03(r)
	a, b, c := ref.Param("a"), ref.Param("b"), ref.Param("c")
	strs := stringsOver("ab", 3)
	if r.Thorough {
		strs = stringsOver("ab", 5)
	}
	strs = append(strs, "aa bb", "é", "éa", "aé", "日本", "本", "A", "a\x00b", "\\", "'", nil, 1, true, ref.List{"a"}, 1.5, ref.Map{"a": 1})
	for _, op := range []string{"STARTS WITH", "ENDS WITH", "CONTAINS", "+"} {
		checkPairs(r, ref.Bin{Op: op, A: a, B: b}, strs, strs)
	}
	maxLen := 3
	if r.Thorough {
		maxLen = 4
	}
	lists := listsOver([]ref.V{1, 2, 3, nil}, maxLen)
	others := []ref.V{nil, 1, "a", true, ref.Map{"a": 1}}
	checkPairs(r, ref.Bin{Op: "IN", A: a, B: b}, []ref.V{1, 2, 3, 4, 1.0, 2.5, nil}, append(append([]ref.V{}, lists...), others...))
	slists := listsOver([]ref.V{"x", "y", nil}, 3)
	checkPairs(r, ref.Bin{Op: "IN", A: a, B: b}, []ref.V{"x", "y", "z", "", nil}, slists)
	mixed := listsOver([]ref.V{1, "x", true, nil}, 2)
	checkPairs(r, ref.Bin{Op: "IN", A: a, B: b}, []ref.V{1, "x", true, false, nil, ref.List{1}}, mixed)
	idx := []ref.V{0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5, math.MaxInt64, math.MinInt64, nil, "a", 1.0, true, ref.List{0}}
	checkPairs(r, ref.Index{E: a, I: b}, append(append([]ref.V{}, lists...), others...), idx)
	bounds := []ref.V{0, 1, 2, 3, 4, 5, -1, math.MaxInt64, math.MinInt64, nil, "a", 1.0}
	checkPairs(r, ref.Slice{E: a, From: b, To: c}, append(append([]ref.V{}, lists...), others...), bounds, bounds)
	checkPairs(r, ref.Slice{E: a, From: b}, append(append([]ref.V{}, lists...), others...), bounds)
	checkPairs(r, ref.Slice{E: a, To: b}, append(append([]ref.V{}, lists...), others...), bounds)
	checkPairs(r, ref.Slice{E: a}, append(append([]ref.V{}, lists...), others...))
	l2 := listsOver([]ref.V{1, "x", nil, ref.List{2}}, 2)
	checkPairs(r, ref.Bin{Op: "+", A: a, B: b}, append(l2, others...), append(l2, others...))
	checkPairs(r, ref.Bin{Op: "+", A: ref.Bin{Op: "+", A: a, B: b}, B: c}, listsOver([]ref.V{1, nil}, 2), listsOver([]ref.V{2}, 2), listsOver([]ref.V{"x"}, 2))
	checkPairs(r, ref.Bin{Op: "+", A: ref.Bin{Op: "+", A: a, B: b}, B: c}, stringsOver("ab", 2), stringsOver("ab", 2), []ref.V{"", "z", nil, 1})
	any := []ref.V{nil, 0, 1, "", "a", true, false, ref.List{}, ref.List{nil}, ref.Map{}, 0.0}
	checkPairs(r, ref.IsNull{E: a}, any)
	checkPairs(r, ref.IsNull{E: a, Not: true}, any)
	for _, op := range []string{"AND", "OR"} {
		checkPairs(r, ref.Bin{Op: op, A: ref.IsNull{E: a}, B: ref.IsNull{E: b, Not: true}}, any, any)
	}
	checkPairs(r, ref.Not{E: ref.IsNull{E: a}}, any)
	checkPairs(r, ref.C1("=", ref.Param("b"), ref.IsNull{E: a}), any, []ref.V{true, false})
	// CASE
	tri := []ref.V{true, false, nil, 1}
	L := func(v ref.V) ref.Expr { return ref.Lit{V: v} }
	for n := 1; n <= 3; n++ {
		for _, els := range []ref.Expr{nil, L("else"), ref.Param("f")} {
			cs := ref.Case{Else: els}
			doms := [][]ref.V{}
			for i := 0; i < n; i++ {
				cs.When = append(cs.When, leafParam(i))
				cs.Then = append(cs.Then, L(i+1))
				doms = append(doms, tri)
			}
			if els != nil && els != ref.Expr(L("else")) {
				// The default is only evaluated if it is needed
				cs.Else = ref.Bin{Op: "/", A: L(1), B: L(0)}
			}
			checkPairs(r, cs, doms...)
			// The same with a tested value: $d is the test
			ct := ref.Case{Test: leafParam(n), Else: cs.Else, When: cs.When, Then: cs.Then}
			vals := []ref.V{1, 2, 1.0, nil, "x"}
			d2 := [][]ref.V{}
			for i := 0; i <= n; i++ {
				d2 = append(d2, vals)
			}
			checkPairs(r, ct, d2...)
		}
	}
	// Branches that are not chosen are not evaluated
	div := ref.Bin{Op: "/", A: L(1), B: L(0)}
	checkPairs(r, ref.Case{When: []ref.Expr{a, b}, Then: []ref.Expr{L(1), div}, Else: L(2)}, tri, tri)
	checkPairs(r, ref.Case{When: []ref.Expr{a, div}, Then: []ref.Expr{L(1), L(2)}, Else: L(2)}, tri)
	checkPairs(r, ref.Case{Test: a, When: []ref.Expr{L(1), L(nil), L("x"), b}, Then: []ref.Expr{b, L(3), c, L(5)}}, []ref.V{1, 1.0, nil, 2}, []ref.V{1, 2, nil}, []ref.V{7, nil})
	// Nesting and sequences of postfix operators
	nested := []ref.V{ref.List{ref.List{1, 2}, ref.List{nil}, ref.List{3}}, ref.List{ref.List{}, nil}, ref.List{}, nil}
	small := []ref.V{0, 1, 2, -1, nil}
	checkPairs(r, ref.Index{E: ref.Index{E: a, I: b}, I: c}, nested, small, small)
	checkPairs(r, ref.Index{E: ref.Slice{E: a, From: b, To: c}, I: ref.Lit{V: 0}}, nested, small, small)
	checkPairs(r, ref.Slice{E: ref.Slice{E: a, From: b}, To: c}, lists[:60], small, small)
	checkPairs(r, ref.Index{E: ref.Bin{Op: "+", A: a, B: b}, I: c}, lists[:20], lists[:20], small)
	checkPairs(r, ref.IsNull{E: ref.Index{E: a, I: b}}, lists[:40], small)
	checkPairs(r, ref.Bin{Op: "IN", A: ref.Index{E: a, I: b}, B: c}, lists[:40], small, lists[:20])
	checkPairs(r, ref.Not{E: ref.Bin{Op: "IN", A: a, B: b}}, []ref.V{1, 2, nil}, lists[:60])
	checkPairs(r, ref.Bin{Op: "CONTAINS", A: ref.Bin{Op: "+", A: a, B: b}, B: c}, strs[:7], strs[:7], strs[:7])
	checkPairs(r, ref.Bin{Op: "AND", A: ref.Bin{Op: "STARTS WITH", A: a, B: b}, B: ref.Bin{Op: "ENDS WITH", A: a, B: c}}, strs[:15], strs[:7], strs[:7])
	checkPairs(r, ref.Index{E: ref.ListX{a, b, c}, I: ref.Lit{V: 1}}, small, small, small)
	checkPairs(r, ref.Index{E: ref.ListX{a, ref.Lit{V: 5}, b}, I: c}, small, small, small)
	// Literals: indexing and slicing constants
	var exprs []ref.Expr
	lit := listsOver([]ref.V{1, 2, nil}, 3)
	for _, l := range lit {
		ll := l.(ref.List)
		for i := -4; i <= 4; i++ {
			exprs = append(exprs, ref.Index{E: ref.Lit{V: ll}, I: ref.Lit{V: i}})
			if i >= 0 {
				for j := 0; j <= 4; j++ {
					exprs = append(exprs, ref.Slice{E: ref.Lit{V: ll}, From: ref.Lit{V: i}, To: ref.Lit{V: j}})
				}
			}
		}
		exprs = append(exprs, ref.Bin{Op: "IN", A: ref.Lit{V: 1}, B: ref.Lit{V: ll}}, ref.Bin{Op: "IN", A: ref.Lit{V: nil}, B: ref.Lit{V: ll}})
		for _, m := range lit[:12] {
			exprs = append(exprs, ref.Bin{Op: "+", A: ref.Lit{V: ll}, B: ref.Lit{V: m}})
		}
	}
	checkLits(r, exprs, nil)
}

// hugeRange tells if e is a call of range() whose list would not fit in
// memory
func hugeRange(e ref.Expr, params map[string]ref.V) bool {
	c, ok := e.(ref.Call)
	if !ok || c.F != "range" || len(c.Args) < 2 || len(c.Args) > 3 {
		return false
	}
	for _, a := range c.Args {
		v, _ := a.Eval(&ref.Env{Params: params})
		if n, ok := v.(int); !ok || n == 0 && len(c.Args) == 3 && a == c.Args[2] {
			return false
		}
	}
	return true
}
