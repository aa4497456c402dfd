package checks

import (
	"fmt"
	"math"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
)

var cmpOps = []string{"=", "<>", "<", "<=", ">", ">="}
var boolOps = []string{"AND", "OR", "XOR"}

var cmpVals = []ref.V{
	0, 1, -1, 2, 10, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1),
	0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, -1e300,
	"", "a", "b", "ab", "A", "é", "z", "10", "9",
	true, false,
	ref.Date{Y: 2020, M: 1, D: 2}, ref.Date{Y: 2020, M: 1, D: 3}, ref.Date{Y: 2020, M: 2, D: 1}, ref.Date{Y: 2019, M: 12, D: 31}, ref.Date{Y: 1969, M: 7, D: 20},
	ref.Time{H: 0}, ref.Time{H: 1}, ref.Time{H: 1, M: 5}, ref.Time{H: 23, M: 59, S: 59, N: 999999999}, ref.Time{M: 30, N: 1},
	ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 2}, Time: ref.Time{H: 3}}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 2}, Time: ref.Time{H: 4}}, ref.DateTime{Date: ref.Date{Y: 2020, M: 1, D: 1}, Time: ref.Time{H: 5, N: 7}},
	ref.Dur{}, ref.Dur{Mo: 1}, ref.Dur{D: 1}, ref.Dur{D: 40}, ref.Dur{S: 1}, ref.Dur{S: 100000}, ref.Dur{N: 1}, ref.Dur{Mo: 1, D: -1}, ref.Dur{Mo: 1, S: 5, N: 3}, ref.Dur{Mo: -1, D: 2},
	nil, ref.List{1}, ref.List{}, ref.Map{"a": 1},
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C02", Level: "model_checking",
		Bounds: "all pairs of an alphabet of about 60 values of all kinds for the six comparisons, all pairs of close values (strings of up to 3 (thorough 5) characters of 4, numbers next to powers of two, 72 dates, 108 times, 192 durations, 240 date-times), chains of 2 and 3 (thorough 4) comparisons, boolean expressions of up to 3 operators with NOT at every position, combinations of NOT, comparisons and boolean operators" + sizeBounds,
		Assume: []string{"NaN is not in the alphabet", "comparisons of incomparable kinds may be an error, null or false"},
		Fn:     runC02,
	})
}

// cmpTrees builds chains of comparisons
func cmpChains(n int, leaf func(int) ref.Expr) []ref.Expr {
	var out []ref.Expr
	var rec func(c ref.Cmp)
	rec = func(c ref.Cmp) {
		if len(c.Ops) == n {
			out = append(out, c)
			return
		}
		for _, op := range cmpOps {
			rec(ref.Cmp{First: c.First, Ops: append(append([]string{}, c.Ops...), op), Rest: append(append([]ref.Expr{}, c.Rest...), leaf(len(c.Ops)+1))})
		}
	}
	rec(ref.Cmp{First: leaf(0)})
	return out
}

// nots gives all ways of putting NOT in front of boolean expressions
func nots(e ref.Expr) []ref.Expr {
	var base []ref.Expr
	if b, ok := e.(ref.Bin); ok {
		for _, x := range nots(b.A) {
			for _, y := range nots(b.B) {
				base = append(base, ref.Bin{Op: b.Op, A: x, B: y})
			}
		}
	} else {
		base = []ref.Expr{e}
	}
	out := append([]ref.Expr{}, base...)
	for _, x := range base {
		out = append(out, ref.Not{E: x})
	}
	return out
}

// denseVals gives families of close values: all pairs of each are compared
func denseVals(thorough bool) [][]ref.V {
	var strs, nums, dates, times, durs []ref.V
	long := 3
	if thorough {
		long = 5
	}
	level := []string{""}
	for n := 0; n <= long; n++ {
		var next []string
		for _, s := range level {
			strs = append(strs, s)
			for _, c := range []string{"a", "b", "B", "é"} {
				next = append(next, s+c)
			}
		}
		level = next
	}
	step := 4
	if thorough {
		step = 1
	}
	for k := 0; k < 63; k += step {
		for d := -1; d <= 1; d++ {
			n := 1<<k + d
			nums = append(nums, n, -n, float64(n), -float64(n), float64(n)+0.5)
		}
	}
	nums = append(nums, math.MaxInt64, math.MinInt64, -9223372036854775808.0, 9223372036854775808.0)
	for _, y := range []int{1, 1969, 1970, 1999, 2000, 9999} {
		for _, mo := range []int{1, 2, 12} {
			for _, d := range []int{1, 2, 11, 28} {
				dates = append(dates, ref.Date{Y: y, M: mo, D: d})
			}
		}
	}
	for _, h := range []int{0, 1, 12, 23} {
		for _, mi := range []int{0, 1, 59} {
			for _, s := range []int{0, 1, 59} {
				for _, n := range []int{0, 1, 999999999} {
					times = append(times, ref.Time{H: h, M: mi, S: s, N: n})
				}
			}
		}
	}
	unit := []int{-1, 0, 1}
	for _, mo := range unit {
		for _, d := range []int{-1, 0, 1, 30} {
			for _, s := range []int{-1, 0, 1, 86400} {
				for _, n := range []int{-1, 0, 1, 1000000000} {
					durs = append(durs, ref.Dur{Mo: int64(mo), D: int64(d), S: int64(s), N: int64(n)})
				}
			}
		}
	}
	var dts []ref.V
	for i := 0; i < len(dates); i += 5 {
		for j := 0; j < len(times); j += 7 {
			dts = append(dts, ref.DateTime{Date: dates[i].(ref.Date), Time: times[j].(ref.Time)})
		}
	}
	return [][]ref.V{strs, nums, dates, times, durs, dts}
}

// densePairs compares all pairs of families of close values
func densePairs(r *mc.Run) {
	for _, vals := range denseVals(r.Thorough) {
		vals := vals
		r.Par(len(vals), func(w *mc.W, i int) {
			world := exprWorld(w)
			v := vals[i]
			w.Case("compare with all of its family "+ref.Key(v), func() string {
				for _, op := range cmpOps {
					q, err := w.Cache.Parse("RETURN $a " + op + " $b")
					if err != nil {
						return err.Error()
					}
					ctx := oc.NewEvalContext(world.G).SetParameter("$a", world.Value(v))
					for _, u := range vals {
						ctx.SetParameter("$b", world.Value(u))
						wv, wst := ref.C1(op, ref.Lit{V: v}, ref.Lit{V: u}).Eval(nil)
						gv, gerr, bad := evalExpr(world, q, ctx)
						w.R.Trans(1)
						if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
							return fmt.Sprintf("%s %s %s ", ref.Key(v), op, ref.Key(u)) + s
						}
					}
				}
				w.R.Trace(1)
				w.R.State("family of " + ref.Key(v))
				return ""
			})
		})
	}
}

func runC02(r *mc.Run) {
	sizesC02(r)
	densePairs(r)
	set := &mc.Set{}
	// Pairs, one case for each left operand
	r.Par(len(cmpVals), func(w *mc.W, i int) {
		world := exprWorld(w)
		v := cmpVals[i]
		w.Case("compare "+ref.Key(v), func() string {
			for _, op := range cmpOps {
				q, err := w.Cache.Parse("RETURN $a " + op + " $b")
				if err != nil {
					return err.Error()
				}
				for _, u := range cmpVals {
					ctx := oc.NewEvalContext(world.G).SetParameter("$a", world.Value(v)).SetParameter("$b", world.Value(u))
					wv, wst := ref.C1(op, ref.Lit{V: v}, ref.Lit{V: u}).Eval(nil)
					gv, gerr, bad := evalExpr(world, q, ctx)
					text := fmt.Sprintf("%s %s %s ", ref.Key(v), op, ref.Key(u))
					if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
						return text + s
					}
					w.R.Trans(1)
					w.R.Trace(1)
					w.R.State(ref.Key(v) + "/" + ref.Key(u))
					if wst == ref.UNSPEC && gerr == nil && fmt.Sprintf("%T", v) != fmt.Sprintf("%T", u) {
						// Incomparable kinds
						if op != "<>" && gv == true || op == "<>" && gv == false {
							return text + "gives " + ref.Key(gv) + " for values of incomparable kinds"
						}
					}
				}
			}
			return ""
		})
	})
	// Chains
	for n := 2; n <= 3; n++ {
		ch := cmpChains(n, leafParam)
		doms := [][]ref.V{{1, 2, 2.0, 3, nil}, {"a", "b", nil, "c"}}
		if n == 3 {
			doms = [][]ref.V{{1, 2.0, 3, nil}}
		}
		for _, dom := range doms {
			dom := dom
			r.Par(len(ch), func(w *mc.W, i int) { checkShape(w, ch[i], n+1, dom, set) })
		}
	}
	if r.Thorough {
		ch := cmpChains(4, leafParam)
		r.Par(len(ch), func(w *mc.W, i int) { checkShape(w, ch[i], 5, []ref.V{1, 2, 3}, set) })
		ch = cmpChains(2, leafParam)
		r.Par(len(ch), func(w *mc.W, i int) {
			checkShape(w, ch[i], 3, []ref.V{ref.Date{Y: 2020, M: 1, D: 1}, ref.Date{Y: 2020, M: 1, D: 2}, ref.Dur{S: 1}, ref.Dur{Mo: 1}, false, true, nil, 1.5, 2}, set)
		})
	}
	// Boolean operators
	tri := []ref.V{true, false, nil}
	bad := []ref.V{true, false, nil, 1, "x"}
	var jobs []struct {
		e   ref.Expr
		n   int
		dom []ref.V
	}
	add := func(e ref.Expr, n int, dom []ref.V) {
		jobs = append(jobs, struct {
			e   ref.Expr
			n   int
			dom []ref.V
		}{e, n, dom})
	}
	for n := 0; n <= 2; n++ {
		for _, t := range trees(n, boolOps, mkBin, leafParam) {
			for _, e := range nots(t) {
				add(e, n+1, bad)
			}
		}
	}
	for mask := 0; mask < 16; mask++ {
		if !r.Thorough && mask != 0 && mask != 1 && mask != 6 && mask != 8 && mask != 15 {
			continue
		}
		for _, e := range trees(3, boolOps, mkBin, func(i int) ref.Expr {
			if mask&(1<<i) != 0 {
				return ref.Not{E: leafParam(i)}
			}
			return leafParam(i)
		}) {
			add(e, 4, tri)
		}
	}
	for _, e := range trees(4, boolOps, mkBin, leafParam) {
		if r.Thorough {
			add(e, 5, tri)
		}
	}
	// Comparisons below boolean operators, with NOT
	rel := func(i int, op string) ref.Expr {
		return ref.C1(op, leafParam(2*i), leafParam(2*i+1))
	}
	for _, op := range boolOps {
		for _, c1 := range cmpOps {
			for _, c2 := range []string{"=", "<", ">="} {
				for _, e := range nots(ref.Bin{Op: op, A: rel(0, c1), B: rel(1, c2)}) {
					add(e, 4, []ref.V{1, 2, nil, "x"})
				}
			}
		}
	}
	// NOT and comparisons of boolean values
	for _, c := range cmpOps {
		add(ref.Not{E: ref.C1(c, ref.Param("a"), ref.Param("b"))}, 2, bad)
		add(ref.C1(c, ref.Not{E: ref.Param("a")}, ref.Param("b")), 2, bad)
		add(ref.C1(c, ref.C1("=", ref.Param("a"), ref.Param("b")), ref.Param("c")), 3, bad)
		add(ref.C1(c, ref.Param("a"), ref.C1("<", ref.Param("b"), ref.Param("c"))), 3, []ref.V{true, false, 1, 2, nil})
		// Arithmetic binds tighter than comparison
		for _, o1 := range []string{"+", "-", "*"} {
			add(ref.C1(c, ref.Bin{Op: o1, A: ref.Param("a"), B: ref.Param("b")}, ref.Bin{Op: "-", A: ref.Param("c"), B: ref.Lit{V: 1}}), 3, []ref.V{1, 2, 3, nil, 0.5})
		}
	}
	add(ref.Not{E: ref.Not{E: ref.Not{E: ref.Param("a")}}}, 1, bad)
	r.Par(len(jobs), func(w *mc.W, i int) { checkShape(w, jobs[i].e, jobs[i].n, jobs[i].dom, set) })
	// Long chains of one boolean operator
	var exprs []ref.Expr
	for _, op := range boolOps {
		product(5, tri, func(v []ref.V) bool {
			var e ref.Expr = ref.Lit{V: v[0]}
			for _, x := range v[1:] {
				e = ref.Bin{Op: op, A: e, B: ref.Lit{V: x}}
			}
			exprs = append(exprs, e)
			return true
		})
	}
	// Literal comparisons
	for _, op := range cmpOps {
		product(2, []ref.V{1, 2, 2.0, 1.5, "a", "b", true, false, nil}, func(v []ref.V) bool {
			exprs = append(exprs, ref.C1(op, ref.Lit{V: v[0]}, ref.Lit{V: v[1]}))
			return true
		})
	}
	checkLits(r, exprs, nil)
}
