package checks

import (
	"fmt"
	"math"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

var arithOps = []string{"+", "-", "*", "/", "%", "^"}

var arithVals = []ref.V{0, 1, -1, 2, 3, -7, 10, math.MaxInt64, math.MinInt64, 0.0, 0.5, -2.5, 3.0, 1e300, nil, "x", true, ref.List{1}, ref.Map{"k": 1}}

func init() {
	mc.Register(&mc.Check{
		Prop: "C01", Level: "model_checking",
		Bounds: "expression trees of up to 3 (thorough 4) operators with all parenthesisations, all unary minus placements up to 2 operators, operand alphabet of 19 values (8-12 for the largest trees); search over values reached by repeated application of operators; literal and mixed literal/parameter operands for constant folding" + sizeBounds,
		Assume: []string{"float results are compared bit by bit with Go's own float64 operations and math.Pow / math.Mod", "integer overflow wraps around"},
		Fn:     runC01,
	})
}

func runC01(r *mc.Run) {
	sizesC01(r)
	set := &mc.Set{}
	small := []ref.V{0, 2, -3, 5, 0.5, -2.0, nil, true}
	type job struct {
		e   ref.Expr
		n   int
		dom []ref.V
	}
	var jobs []job
	// All trees with one and two operators, all operands
	for n := 1; n <= 2; n++ {
		for _, e := range trees(n, arithOps, mkBin, leafParam) {
			jobs = append(jobs, job{e, n + 1, arithVals})
		}
	}
	for n := 0; n <= 2; n++ {
		dom := arithVals
		if n == 2 {
			dom = small
		}
		for _, t := range trees(n, arithOps, mkBin, leafParam) {
			for _, e := range negs(t) {
				jobs = append(jobs, job{e, n + 1, dom})
			}
		}
	}
	for _, e := range trees(3, arithOps, mkBin, leafParam) {
		dom := []ref.V{2, -3, 0, 0.5, nil, "x"}
		if r.Thorough {
			dom = small
		}
		jobs = append(jobs, job{e, 4, dom})
	}
	if r.Thorough {
		for _, e := range trees(4, arithOps, mkBin, leafParam) {
			jobs = append(jobs, job{e, 5, []ref.V{2, -3, 0.5}})
		}
		for _, t := range trees(3, []string{"-", "*", "^", "%"}, mkBin, leafParam) {
			for _, e := range negs(t) {
				jobs = append(jobs, job{e, 4, []ref.V{2, -3, nil}})
			}
		}
	}
	r.Par(len(jobs), func(w *mc.W, i int) { checkShape(w, jobs[i].e, jobs[i].n, jobs[i].dom, set) })

	// Literals: constants are folded, and the folded value is used again
	lits := []ref.V{2, 3, 0, 0.5, nil, "x"}
	if r.Thorough {
		lits = []ref.V{2, 3, 7, 0, 0.5, 4.0, nil, "x", true}
	}
	var exprs []ref.Expr
	for n := 1; n <= 2; n++ {
		product(n+1, lits, func(v []ref.V) bool {
			vals := append([]ref.V{}, v...)
			bad := 0
			for _, x := range vals {
				switch x.(type) {
				case string, bool:
					bad++
				}
			}
			if n == 2 && bad > 0 && !r.Thorough {
				return true
			}
			if bad > 1 {
				return true
			}
			exprs = append(exprs, trees(n, arithOps, mkBin, func(i int) ref.Expr { return ref.Lit{V: vals[i]} })...)
			return true
		})
	}
	for _, t := range trees(2, []string{"-", "*", "^"}, mkBin, func(i int) ref.Expr { return ref.Lit{V: []ref.V{5, 3, 2}[i]} }) {
		exprs = append(exprs, negs(t)...)
	}
	// Flat chains of one precedence level
	for _, ops := range [][]string{{"+", "-"}, {"*", "/", "%"}, {"+", "-", "*"}} {
		for n := 3; n <= 5; n++ {
			if n == 5 && len(ops) == 3 && !r.Thorough {
				continue
			}
			var rec func(e ref.Expr, i int)
			rec = func(e ref.Expr, i int) {
				if i > n {
					exprs = append(exprs, e)
					return
				}
				for _, op := range ops {
					// e op literal, keeping precedence by construction of a flat chain
					rec(flat(e, op, ref.Lit{V: []ref.V{97, 3, 7, 2, 5, 4}[i]}), i+1)
				}
			}
			rec(ref.Lit{V: 97}, 1)
		}
	}
	checkLits(r, exprs, nil)

	// Mixed: some operands are literals, the others are parameters that
	// change between two evaluations of the same parsed expression
	var mixed []ref.Expr
	for mask := 1; mask < 7; mask++ {
		mixed = append(mixed, trees(2, arithOps, mkBin, func(i int) ref.Expr {
			if mask&(1<<i) != 0 {
				return ref.Lit{V: []ref.V{3, 2, 5}[i]}
			}
			return leafParam(i)
		})...)
	}
	r.Par(len(mixed), func(w *mc.W, i int) { checkShape(w, mixed[i], 3, []ref.V{7, 0.5, nil, 0, true}, set) })

	// Long chains of one operator
	var chains []ref.Expr
	for _, op := range arithOps {
		for n := 2; n <= 12; n++ {
			var e ref.Expr = ref.Lit{V: 1}
			for i := 0; i < n; i++ {
				e = ref.Bin{Op: op, A: e, B: ref.Lit{V: 1 + i%2}}
			}
			chains = append(chains, e)
		}
	}
	checkLits(r, chains, nil)

	// Search: apply all operators with all operands to all values reached
	searchValues(r, arithOps, arithVals, map[bool]int{false: 2, true: 3}[r.Thorough], map[bool]int{false: 20000, true: 400000}[r.Thorough])
}

// flat appends op and an operand to a chain written without parentheses
func flat(e ref.Expr, op string, x ref.Expr) ref.Expr {
	n := ref.Bin{Op: op, A: e, B: x}
	if b, ok := e.(ref.Bin); ok && n.Prec() > b.Prec() {
		return ref.Bin{Op: b.Op, A: b.A, B: flat(b.B, op, x)}
	}
	return n
}

// searchValues explores the values reached from dom by applying
// operators with operands of dom on either side
func searchValues(r *mc.Run, ops []string, dom []ref.V, depth, maxStates int) {
	seen := map[string]bool{}
	frontier := []ref.V{}
	for _, v := range dom {
		seen[ref.Key(v)] = true
		frontier = append(frontier, v)
	}
	reached := 0
	for d := 1; d <= depth; d++ {
		next := make([][]ref.V, len(frontier))
		r.Par(len(frontier), func(w *mc.W, i int) {
			v := frontier[i]
			world := exprWorld(w)
			w.Case(fmt.Sprintf("operators %v applied to %s and operands of %s", ops, ref.Key(v), ref.Key(ref.List(dom))), func() string {
				next[i] = nil
				for _, op := range ops {
					text := "RETURN $a " + op + " $b"
					q, err := w.Cache.Parse(text)
					if err != nil {
						return text + " does not parse: " + err.Error()
					}
					for _, u := range dom {
						for side := 0; side < 2; side++ {
							a, b := v, u
							if side == 1 {
								a, b = u, v
							}
							ctx := oc.NewEvalContext(world.G).SetParameter("$a", world.Value(a)).SetParameter("$b", world.Value(b))
							wv, wst := ref.Arith(op, a, b)
							gv, gerr, bad := evalExpr(world, q, ctx)
							if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
								return fmt.Sprintf("%s %s %s %s", ref.Key(a), op, ref.Key(b), s)
							}
							w.R.Trans(1)
							w.R.Trace(1)
							if wst == ref.OK {
								w.R.State(ref.Key(wv))
								next[i] = append(next[i], wv)
							}
						}
					}
				}
				return ""
			})
		})
		var nf []ref.V
		for _, l := range next {
			for _, v := range l {
				if f, ok := v.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
					continue
				}
				if l, ok := v.(ref.List); ok && len(l) > 8 {
					continue
				}
				if s, ok := v.(string); ok && len(s) > 12 {
					continue
				}
				k := ref.Key(v)
				if !seen[k] {
					seen[k] = true
					if len(nf) < maxStates {
						nf = append(nf, v)
					}
				}
			}
		}
		reached = d
		frontier = nf
		if r.Stopped() {
			break
		}
	}
	r.Extra("value_search_depth", reached)
	r.Extra("value_search_values", len(seen))
}

var _ = sut.NewWorld
