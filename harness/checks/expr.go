// Package checks contains the checks of all properties
package checks

import (
	"fmt"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// want describes an expected value for messages
func want(v ref.V, st ref.St) string {
	switch st {
	case ref.ERR:
		return "an error"
	case ref.UNSPEC:
		return "anything"
	}
	return ref.Key(v)
}

// got evaluates RETURN q and gives the value of the only column
func evalExpr(w *sut.World, q oc.Evaluatable, ctx *oc.EvalContext) (ref.V, error, string) {
	o := w.Eval(q, ctx)
	if o.Panic != "" {
		return nil, nil, "panic: " + o.Panic
	}
	if o.Bad != "" {
		return nil, nil, "result is " + o.Bad
	}
	if o.Err != nil {
		return nil, o.Err, ""
	}
	if len(o.Rows) != 1 {
		return nil, nil, fmt.Sprintf("%d rows", len(o.Rows))
	}
	v, ok := o.Rows[0]["1"]
	if !ok || len(o.Rows[0]) != 1 {
		return nil, nil, "row is " + o.Rows[0].Key()
	}
	return v, nil, ""
}

// exprWorld is an empty world for expressions
func exprWorld(w *mc.W) *sut.World {
	if x, ok := w.Data["world"]; ok {
		return x.(*sut.World)
	}
	x := sut.NewWorld()
	w.Data["world"] = x
	return x
}

// cmpValue compares an observed value with the specified one
func cmpValue(wv ref.V, wst ref.St, gv ref.V, gerr error, bad string) string {
	if bad != "" {
		return "gives " + bad + ", expected " + want(wv, wst)
	}
	switch wst {
	case ref.UNSPEC:
		return ""
	case ref.ERR:
		if gerr == nil {
			return "gives " + ref.Key(gv) + ", expected an error"
		}
		return ""
	}
	if gerr != nil {
		return "gives error '" + gerr.Error() + "', expected " + ref.Key(wv)
	}
	if ref.Key(wv) != ref.Key(gv) {
		return "gives " + ref.Key(gv) + ", expected " + ref.Key(wv)
	}
	return ""
}

func envText(m map[string]ref.V) string {
	if len(m) == 0 {
		return ""
	}
	return " with " + ref.Key(ref.Map(m))
}

// product calls f for all assignments of n values from dom
func product(n int, dom []ref.V, f func([]ref.V) bool) {
	idx := make([]int, n)
	vals := make([]ref.V, n)
	for {
		for i, k := range idx {
			vals[i] = dom[k]
		}
		if !f(vals) {
			return
		}
		i := 0
		for ; i < n; i++ {
			idx[i]++
			if idx[i] < len(dom) {
				break
			}
			idx[i] = 0
		}
		if i == n {
			return
		}
	}
}

var pnames = []string{"a", "b", "c", "d", "e", "f"}

// checkShape evaluates an expression over $a, $b, ... for all values
// of the parameters, in one context per assignment
func checkShape(w *mc.W, e ref.Expr, n int, dom []ref.V, trans *mc.Set) {
	text := "RETURN " + e.Str()
	w.Case(text+" over "+fmt.Sprint(n)+" operands of "+ref.Key(ref.List(dom)), func() string {
		q, err := w.Cache.Parse(text)
		if err != nil {
			return "does not parse: " + err.Error()
		}
		world := exprWorld(w)
		fail := ""
		var cnt, un, er int64
		params := map[string]ref.V{}
		env := &ref.Env{Params: params}
		native := make([]oc.Value, len(dom))
		for i := range dom {
			native[i] = world.Value(dom[i])
		}
		_ = native
		product(n, dom, func(vals []ref.V) bool {
			ctx := oc.NewEvalContext(world.G)
			for i, v := range vals {
				params[pnames[i]] = v
				ctx.SetParameter("$"+pnames[i], world.Value(v))
			}
			wv, wst := e.Eval(env)
			gv, gerr, bad := evalExpr(world, q, ctx)
			cnt++
			if wst == ref.UNSPEC {
				un++
			}
			if wst == ref.ERR {
				er++
			}
			if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
				fail = text + envText(params) + " " + s
				return false
			}
			if trans != nil && wst == ref.OK {
				w.R.State(ref.Key(wv))
			}
			return true
		})
		w.R.Trace(cnt)
		w.R.Trans(cnt)
		w.R.Note("unspecified_evaluations", un)
		w.R.Note("error_evaluations", er)
		w.R.Sample(func() string { return text + fmt.Sprintf(" (%d operand assignments)", cnt) })
		return fail
	})
}

// checkBatch evaluates many expressions in one RETURN, twice; all of
// them must be specified not to fail
func checkBatch(w *mc.W, exprs []ref.Expr, env *ref.Env, params map[string]ref.V) {
	if len(exprs) == 0 {
		return
	}
	var sb strings.Builder
	sb.WriteString("RETURN ")
	for i, e := range exprs {
		if i > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(e.Str())
	}
	text := sb.String()
	w.Case(text+envText(params), func() string {
		q, err := sut.SafeParse(text)
		if err != nil {
			return "does not parse: " + err.Error()
		}
		world := exprWorld(w)
		for round := 1; round <= 2; round++ {
			o := world.Eval(q, world.Ctx(env.Vars, params))
			if o.Err != nil || o.Panic != "" || o.Bad != "" || len(o.Rows) != 1 {
				// Find the expression that fails
				for _, e := range exprs {
					q1, err := sut.SafeParse("RETURN " + e.Str())
					if err != nil {
						return e.Str() + " does not parse: " + err.Error()
					}
					v, st := e.Eval(env)
					gv, gerr, bad := evalExpr(world, q1, world.Ctx(env.Vars, params))
					if s := cmpValue(v, st, gv, gerr, bad); s != "" {
						return "RETURN " + e.Str() + envText(params) + " " + s
					}
				}
				return fmt.Sprintf("evaluation %d gives %s", round, o)
			}
			if len(o.Rows[0]) != len(exprs) {
				return fmt.Sprintf("%d columns instead of %d", len(o.Rows[0]), len(exprs))
			}
			for i, e := range exprs {
				v, st := e.Eval(env)
				gv, ok := o.Rows[0][fmt.Sprint(i+1)]
				if !ok {
					return fmt.Sprintf("no column %d", i+1)
				}
				if s := cmpValue(v, st, gv, nil, ""); s != "" {
					return fmt.Sprintf("evaluation %d: RETURN %s%s %s", round, e.Str(), envText(params), s)
				}
				if round == 1 && st == ref.OK {
					w.R.State(ref.Key(v))
				}
			}
		}
		w.R.Trace(int64(2 * len(exprs)))
		w.R.Trans(int64(len(exprs)))
		return ""
	})
}

// checkOne evaluates one expression, twice
func checkOne(w *mc.W, e ref.Expr, env *ref.Env, params map[string]ref.V) {
	text := "RETURN " + e.Str()
	w.Case(text+envText(params)+envText(env.Vars), func() string {
		q, err := sut.SafeParse(text)
		if err != nil {
			return "does not parse: " + err.Error()
		}
		world := exprWorld(w)
		wv, wst := e.Eval(env)
		for round := 1; round <= 2; round++ {
			gv, gerr, bad := evalExpr(world, q, world.Ctx(env.Vars, params))
			if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
				return fmt.Sprintf("%s%s (evaluation %d) %s", text, envText(params), round, s)
			}
		}
		switch wst {
		case ref.ERR:
			w.R.ErrOutcome()
		case ref.UNSPEC:
			w.R.Unspec()
		default:
			w.R.State(ref.Key(wv))
		}
		w.R.Trace(2)
		w.R.Trans(1)
		w.R.Sample(func() string { return text + envText(params) + " -> " + want(wv, wst) })
		return ""
	})
}

// checkLits sorts literal expressions into batches of those that are
// defined, and single evaluations of the others
func checkLits(r *mc.Run, exprs []ref.Expr, params map[string]ref.V) {
	env := &ref.Env{Params: params}
	var ok, other []ref.Expr
	for _, e := range exprs {
		if _, st := e.Eval(env); st == ref.OK {
			ok = append(ok, e)
		} else {
			other = append(other, e)
		}
	}
	const size = 150
	n := (len(ok) + size - 1) / size
	r.Par(n, func(w *mc.W, i int) {
		end := (i + 1) * size
		if end > len(ok) {
			end = len(ok)
		}
		checkBatch(w, ok[i*size:end], env, params)
	})
	r.Par(len(other), func(w *mc.W, i int) { checkOne(w, other[i], env, params) })
}

// trees enumerates the binary trees with n operators of ops over the
// leaves 0..n
func trees(n int, ops []string, mk func(op string, a, b ref.Expr) ref.Expr, leaf func(i int) ref.Expr) []ref.Expr {
	var build func(lo, hi int) []ref.Expr // leaves lo..hi
	build = func(lo, hi int) []ref.Expr {
		if lo == hi {
			return []ref.Expr{leaf(lo)}
		}
		var out []ref.Expr
		for k := lo; k < hi; k++ {
			for _, l := range build(lo, k) {
				for _, r := range build(k+1, hi) {
					for _, op := range ops {
						out = append(out, mk(op, l, r))
					}
				}
			}
		}
		return out
	}
	return build(0, n)
}

func leafParam(i int) ref.Expr { return ref.Param(pnames[i]) }

func mkBin(op string, a, b ref.Expr) ref.Expr { return ref.Bin{Op: op, A: a, B: b} }

// negs gives all ways of putting unary minus in front of
// sub-expressions
func negs(e ref.Expr) []ref.Expr {
	var base []ref.Expr
	if b, ok := e.(ref.Bin); ok {
		for _, x := range negs(b.A) {
			for _, y := range negs(b.B) {
				base = append(base, ref.Bin{Op: b.Op, A: x, B: y})
			}
		}
	} else {
		base = []ref.Expr{e}
	}
	out := append([]ref.Expr{}, base...)
	for _, x := range base {
		out = append(out, ref.Neg{E: x})
	}
	return out
}
