package checks

import (
	"fmt"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// The families of this file have every size from zero up to a bound, and
// sizes around the usual limits of buffers and tables beyond it. The
// other families are complete for small sizes.

// sizeBounds is the part of the bounds that all these families share
const sizeBounds = "; growing families: every size from zero to 16..70 and the sizes around powers of two and round numbers up to 33..1025 (thorough up to four times as large)"

// objectBounds is about the graphs whose properties are not query values
const objectBounds = "; graphs also with properties stored as objects that have the query value (lpg.WithNativeValue)"

// upTo gives 0..n and the sizes around powers of two and round numbers up
// to max
func upTo(n, max int) []int {
	var out []int
	for i := 0; i <= n; i++ {
		out = append(out, i)
	}
	for _, c := range []int{32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024} {
		for k := c - 1; k <= c+1; k++ {
			if k > n && k <= max {
				out = append(out, k)
			}
		}
	}
	return out
}

// sizes are the bounds of upTo
func sizes(r *mc.Run, n, max int) []int {
	if r.Thorough {
		return upTo(2*n, 4*max)
	}
	return upTo(n, max)
}

func few(n int, around ...int) []int {
	seen := map[int]bool{}
	var out []int
	for _, k := range append([]int{0, 1, n / 2, n - 2, n - 1}, around...) {
		if k >= 0 && k < n && !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// checkEnvs evaluates an expression for many parameters
func checkEnvs(w *mc.W, e ref.Expr, name string, envs []map[string]ref.V) {
	text := "RETURN " + e.Str()
	w.Case(name, func() string {
		q, err := sut.SafeParse(text)
		if err != nil {
			return clipText(text) + " does not parse: " + err.Error()
		}
		world := exprWorld(w)
		for _, params := range envs {
			wv, wst := e.Eval(&ref.Env{Params: params})
			gv, gerr, bad := evalExpr(world, q, world.Ctx(nil, params))
			w.R.Trans(1)
			w.R.Trace(1)
			switch wst {
			case ref.ERR:
				w.R.ErrOutcome()
			case ref.UNSPEC:
				w.R.Unspec()
			default:
				w.R.State(name + ref.Key(wv))
			}
			if s := cmpValue(wv, wst, gv, gerr, bad); s != "" {
				return clipText(text) + clipText(envText(params)) + " " + clipText(s)
			}
		}
		w.R.Sample(func() string { return name })
		return ""
	})
}

type sizeCase struct {
	name string
	e    ref.Expr
	envs []map[string]ref.V
}

func runSizeCases(r *mc.Run, cases []sizeCase) {
	r.Note("cases_of_growing_size", int64(len(cases)))
	r.Par(len(cases), func(w *mc.W, i int) { checkEnvs(w, cases[i].e, cases[i].name, cases[i].envs) })
}

func onlyEnv(kv ...interface{}) []map[string]ref.V {
	m := map[string]ref.V{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return []map[string]ref.V{m}
}

// C01: chains of operators
func sizesC01(r *mc.Run) {
	var cases []sizeCase
	envs := []map[string]ref.V{{"a": 3, "b": 2, "c": 0.5}, {"a": 1.5, "b": -1, "c": 7}, {"a": 1, "b": nil, "c": 2}, {"a": 1, "b": 1, "c": "x"}}
	mixes := [][]string{{"+"}, {"-"}, {"*"}, {"/"}, {"%"}, {"^"}, {"+", "-"}, {"*", "/"}, {"+", "*"}, {"-", "%", "+"}, {"*", "^"}}
	for _, n := range sizes(r, 24, 130) {
		for mi, mix := range mixes {
			if n > 33 && mi > 3 && !r.Thorough {
				continue
			}
			for _, operands := range []string{"abc", "a1b"} {
				leaf := func(i int) ref.Expr {
					switch operands[i%3] {
					case '1':
						return lit(i%3 + 1)
					}
					return ref.Param(operands[i%3 : i%3+1])
				}
				// From left to right with the precedence of the operators: the
				// reference gets the tree of the text
				e := chainTree(leaf, n, func(i int) string { return mix[i%len(mix)] })
				cases = append(cases, sizeCase{fmt.Sprintf("%d operators %v over %s", n, mix, operands), e, envs})
			}
		}
		if n <= 33 {
			var e ref.Expr = ref.Param("a")
			for i := 0; i < n; i++ {
				e = ref.Neg{E: e}
			}
			cases = append(cases, sizeCase{fmt.Sprintf("%d signs", n), e, envs})
		}
		// Sums of n literals only
		var e ref.Expr = lit(1)
		for i := 0; i < n; i++ {
			e = ref.Bin{Op: "+", A: e, B: lit(i)}
		}
		cases = append(cases, sizeCase{fmt.Sprintf("sum of %d literals", n), e, onlyEnv()})
	}
	runSizeCases(r, cases)
}

// chainTree is the tree of a chain of arithmetic operators without
// parentheses
func chainTree(leaf func(int) ref.Expr, n int, op func(int) string) ref.Expr {
	prec := map[string]int{"+": 1, "-": 1, "*": 2, "/": 2, "%": 2, "^": 3}
	var vals []ref.Expr
	var ops []string
	reduce := func() {
		k := len(vals)
		vals = append(vals[:k-2], ref.Bin{Op: ops[len(ops)-1], A: vals[k-2], B: vals[k-1]})
		ops = ops[:len(ops)-1]
	}
	vals = append(vals, leaf(0))
	for i := 0; i < n; i++ {
		o := op(i)
		for len(ops) > 0 && prec[ops[len(ops)-1]] >= prec[o] {
			reduce()
		}
		ops = append(ops, o)
		vals = append(vals, leaf(i+1))
	}
	for len(ops) > 0 {
		reduce()
	}
	return vals[0]
}

// C02: chains of boolean operators and comparisons, with one operand that
// decides at every position
func sizesC02(r *mc.Run) {
	var cases []sizeCase
	for _, n := range sizes(r, 16, 130)[1:] {
		for _, op := range []string{"AND", "OR", "XOR"} {
			var e ref.Expr
			for i := 0; i < n; i++ {
				p := ref.Param(fmt.Sprint("p", i))
				if e == nil {
					e = p
				} else {
					e = ref.Bin{Op: op, A: e, B: p}
				}
			}
			var envs []map[string]ref.V
			at := few(n)
			if n <= 16 {
				at = nil
				for i := 0; i < n; i++ {
					at = append(at, i)
				}
			}
			for _, base := range []ref.V{true, false, nil} {
				for _, odd := range []ref.V{true, false, nil, 1} {
					for _, k := range at {
						m := map[string]ref.V{}
						for i := 0; i < n; i++ {
							m[fmt.Sprint("p", i)] = base
						}
						m[fmt.Sprint("p", k)] = odd
						envs = append(envs, m)
					}
				}
			}
			cases = append(cases, sizeCase{fmt.Sprintf("%d operands of %s", n, op), e, envs})
		}
		for _, ops := range [][]string{{"<"}, {"<="}, {"="}, {"<", "<="}, {"<>", "<"}} {
			c := ref.Cmp{First: ref.Param("p0")}
			for i := 1; i < n; i++ {
				c.Ops = append(c.Ops, ops[i%len(ops)])
				c.Rest = append(c.Rest, ref.Param(fmt.Sprint("p", i)))
			}
			if n < 2 {
				continue
			}
			var envs []map[string]ref.V
			for _, k := range append(few(n), -1) {
				for _, odd := range []ref.V{-1, 1000, nil, 2.5} {
					m := map[string]ref.V{}
					for i := 0; i < n; i++ {
						m[fmt.Sprint("p", i)] = i
						if ops[0] == "=" {
							m[fmt.Sprint("p", i)] = 5
						}
					}
					if k >= 0 {
						m[fmt.Sprint("p", k)] = odd
					}
					envs = append(envs, m)
				}
			}
			cases = append(cases, sizeCase{fmt.Sprintf("%d operands of %v", n, ops), c, envs})
		}
		if n <= 33 {
			var e ref.Expr = ref.Param("a")
			for i := 0; i < n; i++ {
				e = ref.Not{E: e}
			}
			cases = append(cases, sizeCase{fmt.Sprintf("%d NOT", n), e, []map[string]ref.V{{"a": true}, {"a": false}, {"a": nil}, {"a": 1}}})
		}
	}
	// Long strings that differ in one place
	for _, n := range sizes(r, 40, 300) {
		var envs []map[string]ref.V
		for _, k := range few(n, 7, 8, 31, 32, 63, 64) {
			s := strings.Repeat("m", n)
			for _, c := range []string{"a", "m", "z", "é"} {
				t := s[:k] + c + s[k+1:]
				envs = append(envs, map[string]ref.V{"a": s, "b": t}, map[string]ref.V{"a": t, "b": s})
			}
		}
		s := strings.Repeat("m", n)
		envs = append(envs, map[string]ref.V{"a": s, "b": s + "m"}, map[string]ref.V{"a": s + "m", "b": s}, map[string]ref.V{"a": s, "b": s})
		for _, op := range []string{"=", "<>", "<", "<=", ">", ">="} {
			cases = append(cases, sizeCase{fmt.Sprintf("strings of length %d with %s", n, op), cmp(ref.Param("a"), op, ref.Param("b")), envs})
		}
	}
	// Lists and maps
	for _, n := range sizes(r, 20, 65) {
		mk := func(k int, v ref.V) ref.List {
			l := ref.List{}
			for i := 0; i < n; i++ {
				l = append(l, i)
			}
			if k >= 0 && k < n {
				l[k] = v
			}
			return l
		}
		mm := func(k int, v ref.V) ref.Map {
			m := ref.Map{}
			for i, x := range mk(k, v) {
				m[fmt.Sprint("k", i)] = x
			}
			return m
		}
		var envs []map[string]ref.V
		for _, k := range append(few(n, 7, 8), -1) {
			for _, v := range []ref.V{-1, nil} {
				envs = append(envs, map[string]ref.V{"a": mk(-1, nil), "b": mk(k, v)}, map[string]ref.V{"a": mk(k, v), "b": mk(-1, nil)}, map[string]ref.V{"a": mk(k, v), "b": mk(k, v)}, map[string]ref.V{"a": mm(-1, nil), "b": mm(k, v)}, map[string]ref.V{"a": mm(k, v), "b": mm(-1, nil)})
			}
		}
		envs = append(envs, map[string]ref.V{"a": mk(-1, nil), "b": append(mk(-1, nil), 1)}, map[string]ref.V{"a": append(mk(-1, nil), 1), "b": mk(-1, nil)})
		for _, op := range []string{"=", "<>"} {
			cases = append(cases, sizeCase{fmt.Sprintf("lists and maps of %d with %s", n, op), cmp(ref.Param("a"), op, ref.Param("b")), envs})
		}
	}
	runSizeCases(r, cases)
}

// C03: lists and strings of every size, looked at in every place
func sizesC03(r *mc.Run) {
	var cases []sizeCase
	a, b, c := ref.Param("a"), ref.Param("b"), ref.Param("c")
	for _, n := range sizes(r, 40, 300) {
		l := ref.List{}
		sl := ref.List{}
		for i := 0; i < n; i++ {
			l = append(l, i*2)
			sl = append(sl, fmt.Sprint("s", i))
		}
		var at []int
		for i := -n - 2; i <= n+2; i++ {
			if n <= 70 || i < -n+3 || i > n-3 || i > -4 && i < 4 || i%50 < 2 {
				at = append(at, i)
			}
		}
		var in, idx, from, two, ap []map[string]ref.V
		for _, i := range at {
			in = append(in, map[string]ref.V{"a": i * 2, "b": l}, map[string]ref.V{"a": i*2 + 1, "b": l}, map[string]ref.V{"a": float64(i * 2), "b": l}, map[string]ref.V{"a": fmt.Sprint("s", i), "b": sl})
			idx = append(idx, map[string]ref.V{"a": l, "b": i}, map[string]ref.V{"a": sl, "b": i})
			if i >= 0 {
				from = append(from, map[string]ref.V{"a": l, "b": i})
				if i < n {
					nl := append(append(append(ref.List{}, l[:i]...), nil), l[i+1:]...)
					in = append(in, map[string]ref.V{"a": 2, "b": nl}, map[string]ref.V{"a": -1, "b": nl})
				}
				for _, j := range at {
					if j >= 0 && (n <= 20 || i%10 < 2 || j%10 < 2 || j >= n-1) {
						two = append(two, map[string]ref.V{"a": l, "b": i, "c": j})
					}
				}
				ap = append(ap, map[string]ref.V{"a": l, "b": sl[:min2(i, n)]}, map[string]ref.V{"a": sl[:min2(i, n)], "b": l})
			}
		}
		cases = append(cases,
			sizeCase{fmt.Sprintf("IN with %d elements", n), ref.Bin{Op: "IN", A: a, B: b}, in},
			sizeCase{fmt.Sprintf("index of %d elements", n), ref.Index{E: a, I: b}, idx},
			sizeCase{fmt.Sprintf("slice from of %d elements", n), ref.Slice{E: a, From: b}, from},
			sizeCase{fmt.Sprintf("slice to of %d elements", n), ref.Slice{E: a, To: b}, from},
			sizeCase{fmt.Sprintf("slice of %d elements", n), ref.Slice{E: a, From: b, To: c}, two},
			sizeCase{fmt.Sprintf("sum of lists up to %d elements", n), ref.Bin{Op: "+", A: a, B: b}, ap})
		if n <= 130 {
			// The list is written in the query
			var lx ref.ListX
			for i := 0; i < n; i++ {
				lx = append(lx, lit(i*2))
			}
			lv := ref.ListX{}
			for i := 0; i < n; i++ {
				if i == n/2 {
					lv = append(lv, b)
				} else {
					lv = append(lv, lit(i*2))
				}
			}
			var e1 []map[string]ref.V
			for _, i := range at {
				e1 = append(e1, map[string]ref.V{"a": i * 2, "b": 7}, map[string]ref.V{"a": i, "b": nil})
			}
			cases = append(cases, sizeCase{fmt.Sprintf("IN with a written list of %d", n), ref.Bin{Op: "IN", A: a, B: lx}, e1}, sizeCase{fmt.Sprintf("IN with a written list of %d with a parameter", n), ref.Bin{Op: "IN", A: a, B: lv}, e1},
				sizeCase{fmt.Sprintf("index of a written list of %d", n), ref.Index{E: lx, I: a}, e1}, sizeCase{fmt.Sprintf("index of a written list of %d with a parameter", n), ref.Index{E: lv, I: a}, e1},
				sizeCase{fmt.Sprintf("written list of %d", n), lx, e1[:1]}, sizeCase{fmt.Sprintf("written list of %d with a parameter", n), lv, e1[:2]})
			var mx ref.MapX
			for i := 0; i < n; i++ {
				if i%3 == 2 {
					mx = append(mx, ref.KV{K: fmt.Sprint("k", i), E: b})
				} else {
					mx = append(mx, ref.KV{K: fmt.Sprint("k", i), E: lit(i)})
				}
			}
			if n > 0 {
				cases = append(cases, sizeCase{fmt.Sprintf("written map of %d", n), mx, e1[:2]})
			}
		}
		// Strings
		s := ""
		for i := 0; i < n; i++ {
			s += string(rune('a' + i%7))
		}
		var st []map[string]ref.V
		for _, i := range at {
			if i < 0 || i > n {
				continue
			}
			st = append(st, map[string]ref.V{"a": s, "b": s[:i]}, map[string]ref.V{"a": s, "b": s[i:]}, map[string]ref.V{"a": s, "b": s[:i] + "Z"}, map[string]ref.V{"a": s, "b": "Z" + s[i:]}, map[string]ref.V{"a": s[:i] + "ZZ" + s[i:], "b": "ZZ"}, map[string]ref.V{"a": s[:i] + "Z" + s[i:], "b": "ZZ"}, map[string]ref.V{"a": s[:i], "b": s})
			if i+3 <= n {
				st = append(st, map[string]ref.V{"a": s, "b": s[i : i+3]})
			}
		}
		for _, op := range []string{"STARTS WITH", "ENDS WITH", "CONTAINS", "+"} {
			cases = append(cases, sizeCase{fmt.Sprintf("%s with strings of length %d", op, n), ref.Bin{Op: op, A: a, B: b}, st})
		}
	}
	// CASE
	for _, n := range sizes(r, 24, 65) {
		if n == 0 {
			continue
		}
		for _, els := range []ref.Expr{nil, lit("else")} {
			c1, c2 := ref.Case{Test: a, Else: els}, ref.Case{Else: els}
			for i := 0; i < n; i++ {
				c1.When, c1.Then = append(c1.When, lit(i)), append(c1.Then, lit(fmt.Sprint("t", i)))
				c2.When, c2.Then = append(c2.When, cmp(a, "=", lit(i))), append(c2.Then, ref.Bin{Op: "+", A: b, B: lit(i)})
			}
			var envs []map[string]ref.V
			for i := -1; i <= n; i++ {
				envs = append(envs, map[string]ref.V{"a": i, "b": 100})
			}
			envs = append(envs, map[string]ref.V{"a": nil, "b": 100})
			cases = append(cases, sizeCase{fmt.Sprintf("CASE of a value with %d alternatives, else %v", n, els != nil), c1, envs}, sizeCase{fmt.Sprintf("CASE with %d alternatives, else %v", n, els != nil), c2, envs})
		}
	}
	runSizeCases(r, cases)
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// C04: functions of long strings and lists
func sizesC04(r *mc.Run) {
	var cases []sizeCase
	a, b, c := ref.Param("a"), ref.Param("b"), ref.Param("c")
	call := func(f string, args ...ref.Expr) ref.Expr { return ref.Call{F: f, Args: args} }
	for _, n := range sizes(r, 40, 300) {
		for _, alpha := range []string{"abcdefg", "aéb日c", " a\t"} {
			rs := []rune{}
			for i := 0; i < n; i++ {
				rs = append(rs, []rune(alpha)[i%len([]rune(alpha))])
			}
			s := string(rs)
			l := ref.List{}
			for i := 0; i < n; i++ {
				l = append(l, i)
			}
			one := []map[string]ref.V{{"a": s}, {"a": s + " "}, {"a": " " + s}, {"a": strings.Repeat(" ", n) + "x" + strings.Repeat("\t", n)}}
			for _, f := range []string{"trim", "ltrim", "rtrim"} {
				cases = append(cases, sizeCase{fmt.Sprintf("%s of %d characters of %q", f, n, alpha), call(f, a), one})
			}
			cases = append(cases, sizeCase{fmt.Sprintf("size of %d elements or characters of %q", n, alpha), call("size", a), append(one, map[string]ref.V{"a": l})})
			var two, three, sp []map[string]ref.V
			for i := 0; i <= n+1; i++ {
				if n > 70 && i > 4 && i < n-4 && i%50 > 1 {
					continue
				}
				two = append(two, map[string]ref.V{"a": s, "b": i})
				for _, j := range append(few(n+2), 5) {
					three = append(three, map[string]ref.V{"a": s, "b": i, "c": j})
				}
				if i < n {
					sp = append(sp, map[string]ref.V{"a": s, "b": string(rs[i : i+1])}, map[string]ref.V{"a": s, "b": string(rs[i:])}, map[string]ref.V{"a": string(rs[:i]) + "--" + string(rs[i:]), "b": "--"})
				}
			}
			for _, f := range []string{"left", "right", "substring"} {
				cases = append(cases, sizeCase{fmt.Sprintf("%s of %d characters of %q", f, n, alpha), call(f, a, b), two})
			}
			cases = append(cases, sizeCase{fmt.Sprintf("substring of a length of %d characters of %q", n, alpha), call("substring", a, b, c), three})
			if n > 0 {
				cases = append(cases, sizeCase{fmt.Sprintf("split of %d characters of %q", n, alpha), call("split", a, b), sp})
			}
		}
		var rg []map[string]ref.V
		for _, st := range []int{1, 2, 3, 7, -1, -2} {
			rg = append(rg, map[string]ref.V{"a": 0, "b": n, "c": st}, map[string]ref.V{"a": n, "b": 0, "c": st}, map[string]ref.V{"a": -n, "b": n, "c": st})
		}
		cases = append(cases, sizeCase{fmt.Sprintf("range up to %d with a step", n), call("range", a, b, c), rg}, sizeCase{fmt.Sprintf("range up to %d", n), call("range", a, b), rg})
		if n > 0 && n <= 40 {
			d := strings.Repeat("1234567890", 5)[:n]
			cv := []map[string]ref.V{{"a": d}, {"a": "-" + d}, {"a": "0." + d}, {"a": strings.Repeat("0", n) + "7"}, {"a": d + ".5"}}
			for _, f := range []string{"toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull"} {
				cases = append(cases, sizeCase{fmt.Sprintf("%s of %d digits", f, n), call(f, a), cv})
			}
		}
	}
	runSizeCases(r, cases)
}

// C05: long literals and names
func sizesC05(r *mc.Run) {
	type lcase struct {
		text string
		want ref.V
	}
	var cases []lcase
	for _, n := range sizes(r, 70, 1025) {
		for _, c := range []string{"x", "é", "日", "😀", "ab"} {
			s := strings.Repeat(c, n)
			cases = append(cases, lcase{"'" + s + "'", s}, lcase{"\"" + s + "\"", s})
			if n <= 130 {
				cases = append(cases, lcase{"'" + s + "\\n" + s + "'", s + "\n" + s})
			}
		}
		if n <= 130 {
			for _, e := range [][2]string{{"\\n", "\n"}, {"\\'", "'"}, {"\\\\", "\\"}, {"\\u00e9", "é"}, {"\\U0001F600", "😀"}, {"\\t", "\t"}} {
				cases = append(cases, lcase{"'" + strings.Repeat(e[0], n) + "'", strings.Repeat(e[1], n)}, lcase{"'a" + strings.Repeat(e[0]+"b", n) + "'", "a" + strings.Repeat(e[1]+"b", n)})
			}
		}
	}
	r.Note("cases_of_growing_size", int64(len(cases)))
	r.Par(len(cases), func(w *mc.W, i int) {
		c := cases[i]
		checkEnvs(w, ref.Txt{T: c.text, V: c.want}, fmt.Sprintf("literal %s of %d bytes", clipText(c.text), len(c.text)), onlyEnv())
		w.Case(fmt.Sprintf("escaped string of %d bytes like %s", len(c.want.(string)), clipText(c.text)), func() string {
			t := oc.EscapeStringLiteral(c.want.(string))
			v, perr, eerr := literalValue(t)
			if perr != nil || eerr != nil || ref.Key(v) != ref.Key(c.want) {
				return fmt.Sprintf("%s gives %s, %v, %v", clipText(t), clipText(ref.Key(v)), perr, eerr)
			}
			return ""
		})
	})
	// Names
	ns := sizes(r, 70, 260)
	r.Par(len(ns), func(w *mc.W, i int) {
		n := ns[i]
		for _, c := range []string{"x", "X", "é", "a b", "`", "_9", "match"} {
			name := strings.Repeat(c, n)
			if n == 0 {
				continue
			}
			w.Case(fmt.Sprintf("name of %d times %q", n, c), func() string {
				texts := []string{ref.QuoteName(name), oc.EscapeLabelLiteral(name), oc.EscapePropertyKeyLiteral(name)}
				for _, t := range texts {
					q, err := sut.SafeParse("CREATE (n:" + t + " {" + t + ": 5})-[e:" + t + "]->(n) RETURN n." + t + " AS `" + strings.ReplaceAll(name, "`", "``") + "`")
					if err != nil {
						return clipText(t) + " does not parse: " + err.Error()
					}
					wd := sut.NewWorld()
					out := wd.Eval(q, wd.Ctx(nil, nil))
					if out.Err != nil || out.Panic != "" || len(out.Rows) != 1 || out.Rows[0].Key() != ref.Key(ref.Map{name: 5}) {
						return clipText(t) + " gives " + clipText(out.String())
					}
					nodes := 0
					for itr := wd.G.GetNodes(); itr.Next(); {
						nd := itr.Node()
						nodes++
						if !nd.GetLabels().Has(name) || nd.GetLabels().Len() != 1 {
							return clipText(t) + " creates other labels"
						}
						if _, ok := nd.GetProperty(name); !ok {
							return clipText(t) + " creates another property"
						}
					}
					edges := 0
					for itr := wd.G.GetEdges(); itr.Next(); {
						edges++
						if itr.Edge().GetLabel() != name {
							return clipText(t) + " creates another type"
						}
					}
					if nodes != 1 || edges != 1 {
						return "creates other elements"
					}
					w.R.Trace(1)
				}
				return ""
			})
		}
	})
}

// sizeGraph has n nodes in a chain of relationships X from one to the
// next, and a relationship Y of every fifth node to the first one
func sizeGraph(n int) *ref.Graph {
	g := ref.NewGraph()
	for i := 0; i < n; i++ {
		var l []string
		if i%2 == 0 {
			l = append(l, "A")
		}
		if i%3 == 0 {
			l = append(l, "B")
		}
		p := ref.Map{"k": i, "p": i * 7 % 5, "s": fmt.Sprint("s", i%4)}
		if i%4 != 0 {
			p["q"] = i % 3
		}
		g.AddNode(l, p)
	}
	for i := 0; i+1 < n; i++ {
		g.AddEdge(ref.NodeID(i), ref.NodeID(i+1), "X", ref.Map{"w": i % 3})
		if i%5 == 1 {
			g.AddEdge(ref.NodeID(i), 0, "Y", ref.Map{"w": i})
		}
	}
	return g
}

// sizeGraphs are the graphs of the given sizes
func sizeGraphs(ns []int) []*ref.Graph {
	var out []*ref.Graph
	for _, n := range ns {
		out = append(out, sizeGraph(n))
	}
	return out
}

// freeGraph has n nodes without relationships
func freeGraph(n int) *ref.Graph {
	g := sizeGraph(n)
	h := ref.NewGraph()
	for _, id := range g.NodeIDs() {
		h.AddNode(g.Nodes[id].Labels, g.Nodes[id].Props)
	}
	return h
}

// eachSize runs queries on graphs of growing size, one case per size
func eachSize(r *mc.Run, ns []int, mk func(int) *ref.Graph, qs []ref.Query, o qopts) {
	o.exact = true
	r.Note("cases_of_growing_size", int64(len(ns)*len(qs)))
	r.Par(len(ns)*len(qs), func(w *mc.W, i int) {
		n, q := ns[i/len(qs)], qs[i%len(qs)]
		text := q.Str()
		w.Case(fmt.Sprintf("%s on %d nodes", clipText(text), n), func() string {
			p, err := w.Cache.Parse(text)
			if err != nil {
				return clipText(text) + " does not parse: " + err.Error()
			}
			g := mk(n)
			o := o
			o.builds = fewOrders(g)
			return clipText2(queryCase(w, p, g, q, o))
		})
	})
}

// clipText2 shortens a message
func clipText2(s string) string {
	if len(s) > 1500 {
		return s[:1000] + " ... " + s[len(s)-400:]
	}
	return s
}

type sizedQuery struct {
	name string
	n    int
	q    ref.Query
}

// eachQuery runs queries of growing size on small graphs
func eachQuery(r *mc.Run, gs []*ref.Graph, qs []sizedQuery, o qopts) {
	o.exact = true
	r.Note("cases_of_growing_size", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		q := qs[i]
		text := q.q.Str()
		w.Case(fmt.Sprintf("%s, size %d", q.name, q.n), func() string {
			p, err := sut.SafeParse(text)
			if err != nil {
				return clipText(text) + " does not parse: " + err.Error()
			}
			for _, g := range gs {
				if s := queryCase(w, p, g, q.q, o); s != "" {
					return clipText(text) + " on " + g.String() + " " + clipText2(s)
				}
			}
			return ""
		})
	})
}

func mapX(kv ...interface{}) ref.MapX {
	m := ref.MapX{}
	for i := 0; i < len(kv); i += 2 {
		m = append(m, ref.KV{K: kv[i].(string), E: kv[i+1].(ref.Expr)})
	}
	return m
}

func reads1(ps ...ref.Part) []ref.Match { return []ref.Match{{Parts: ps}} }

func retItems(es ...ref.Expr) *ref.Return {
	rt := &ref.Return{}
	for i, e := range es {
		rt.Items = append(rt.Items, ref.Item{E: e, As: fmt.Sprint("c", i)})
	}
	return rt
}

// C09: patterns on larger graphs
func sizesC09(r *mc.Run) {
	X := func(v string, d ref.Dir, rng string, types ...string) ref.RelPat {
		return ref.RelPat{Var: v, Dir: d, Rng: rng, Types: types}
	}
	var qs []ref.Query
	for _, p := range []ref.Part{
		nodePart(nP("a")), nodePart(nP("a", "A")), nodePart(nP("a", "A", "B")), nodePart(nP("a", "C")),
		nodePart(ref.NodePat{Var: "a", Props: mapX("p", lit(3))}), nodePart(ref.NodePat{Var: "a", Labels: []string{"B"}, Props: mapX("k", ref.Param("k"))}), nodePart(ref.NodePat{Var: "a", Props: mapX("s", lit("s1"), "p", lit(0))}),
		part(nP("a"), X("e", ref.Right, ""), nP("b")), part(nP("a", "A"), X("e", ref.Both, ""), nP("b", "B")), part(nP("a"), X("e", ref.Left, "", "Y"), nP("b")), part(nP("a"), X("e", ref.Right, "", "Y", "X"), nP("b", "B")),
		part(nP("a"), X("e", ref.Right, "*1..3"), nP("b", "A", "B")), part(nP("a"), X("e", ref.Left, "*2..", "X"), ref.NodePat{Var: "b", Props: mapX("k", lit(0))}), part(nP("a"), X("e", ref.Right, "*", "X"), nP("b")),
		part(ref.NodePat{Var: "a", Props: mapX("k", lit(0))}, X("e", ref.Right, "*", "X"), nP("b")), part(ref.NodePat{Var: "a", Props: mapX("k", lit(0))}, X("e", ref.Both, "*..9", "X"), nP("b", "B")),
		part3(nP("a"), X("e", ref.Right, ""), nP("b"), X("f", ref.Right, "", "Y"), nP("c")), part3(nP("a", "A"), X("e", ref.Left, ""), nP("b"), X("f", ref.Both, "", "X"), nP("a")),
		part(nP("a"), ref.RelPat{Var: "e", Props: mapX("w", lit(1))}, nP("b")), part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}, Dir: ref.Both, Props: mapX("w", lit(2))}, nP("b")),
	} {
		qs = append(qs, matchQ(p))
	}
	ns := upTo(40, 130)
	if r.Thorough {
		// The number of paths is quadratic
		ns = upTo(80, 201)
	}
	eachSize(r, ns, sizeGraph, qs, qopts{params: map[string]ref.V{"k": 33}})
	// Stars with many relationships
	star := func(n int) *ref.Graph {
		g := ref.NewGraph()
		g.AddNode([]string{"H"}, ref.Map{"k": -1})
		for i := 0; i < n; i++ {
			g.AddNode([]string{"L"}, ref.Map{"k": i})
			t := "X"
			if i%3 == 2 {
				t = "Y"
			}
			if i%2 == 0 {
				g.AddEdge(0, ref.NodeID(i+1), t, ref.Map{"w": i % 4})
			} else {
				g.AddEdge(ref.NodeID(i+1), 0, t, ref.Map{"w": i % 4})
			}
		}
		return g
	}
	qs = nil
	for _, p := range []ref.Part{
		part(nP("h", "H"), X("e", ref.Right, ""), nP("b")), part(nP("h", "H"), X("e", ref.Left, "", "X"), nP("b")), part(nP("h", "H"), X("e", ref.Both, ""), nP("b", "L")), part(nP("a"), X("e", ref.Both, "", "Y"), nP("b")),
		part3(nP("a", "L"), X("e", ref.Right, ""), nP("h"), X("f", ref.Right, ""), nP("b")), part(nP("a"), X("e", ref.Right, "*2"), nP("b")), part(nP("a", "L"), X("e", ref.Right, "*"), nP("b", "L")),
		part(ref.NodePat{Var: "a", Props: mapX("k", lit(5))}, X("e", ref.Both, "*1..2"), nP("b")), part(nP("h", "H"), ref.RelPat{Var: "e", Dir: ref.Both, Props: mapX("w", lit(3))}, nP("b")),
	} {
		qs = append(qs, matchQ(p))
	}
	eachSize(r, sizes(r, 30, 66), star, qs, qopts{})
	// Long fixed chains in the pattern
	var sq []sizedQuery
	for _, n := range sizes(r, 20, 33)[1:] {
		for mode := 0; mode < 4; mode++ {
			p := ref.Part{Nodes: []ref.NodePat{nP("v0")}}
			for i := 1; i <= n; i++ {
				d := ref.Right
				if mode == 1 {
					d = ref.Left
				}
				rp := X(fmt.Sprint("e", i), d, "", "X")
				np := nP(fmt.Sprint("v", i))
				if mode == 2 && i != n {
					np.Var, rp.Var = "", ""
				}
				if mode == 3 && i == n {
					np.Labels = []string{"A"}
				}
				p.Rels, p.Nodes = append(p.Rels, rp), append(p.Nodes, np)
			}
			sq = append(sq, sizedQuery{fmt.Sprintf("chain in the pattern (%d)", mode), n, matchQ(p)})
		}
		var labs []string
		for i := 0; i < n; i++ {
			labs = append(labs, fmt.Sprint("L", i))
		}
		sq = append(sq, sizedQuery{"labels of a node", n, matchQ(nodePart(nP("a", labs...)))}, sizedQuery{"labels of one node", n, matchQ(nodePart(nP("a", labs[n-1])))}, sizedQuery{"types of a relationship", n, matchQ(part(nP("a"), ref.RelPat{Var: "e", Types: append(append([]string{}, labs...), "X")}, nP("b")))})
		mx := ref.MapX{}
		for i := 0; i < n; i++ {
			mx = append(mx, ref.KV{K: fmt.Sprint("k", i), E: lit(i)})
		}
		sq = append(sq, sizedQuery{"properties of a node", n, matchQ(nodePart(ref.NodePat{Var: "a", Props: mx}))})
	}
	lg := ref.NewGraph()
	for k := 0; k < 36; k++ {
		var labs []string
		m := ref.Map{}
		for i := 0; i < k; i++ {
			labs = append(labs, fmt.Sprint("L", i))
			m[fmt.Sprint("k", i)] = i
		}
		lg.AddNode(labs, m)
	}
	for k := 0; k+1 < 36; k += 3 {
		lg.AddEdge(ref.NodeID(k), ref.NodeID(k+1), fmt.Sprint("L", k), nil)
	}
	eachQuery(r, []*ref.Graph{sizeGraph(24), lg}, sq, qopts{})
}

// C10: many patterns and clauses
func sizesC10(r *mc.Run) {
	np := func(i int) ref.Part {
		return nodePart(ref.NodePat{Var: fmt.Sprint("v", i), Props: mapX("k", lit(i%7))})
	}
	var sq []sizedQuery
	add := func(name string, n int, ms []ref.Match) {
		sq = append(sq, sizedQuery{name, n, ref.Q(ms, nil, varsReturn(allParts(ms)...))})
	}
	for _, n := range sizes(r, 20, 33)[1:] {
		var one ref.Match
		var many, opt, joined, where []ref.Match
		var w1 ref.Expr
		for i := 0; i < n; i++ {
			one.Parts = append(one.Parts, np(i))
			many = append(many, ref.Match{Parts: []ref.Part{np(i)}})
			// Every third one does not match
			p := np(i)
			if i%3 == 1 {
				p.Nodes[0].Labels = []string{"C"}
			}
			opt = append(opt, ref.Match{Optional: true, Parts: []ref.Part{p}})
			if i == 0 {
				joined = append(joined, ref.Match{Parts: []ref.Part{np(0)}})
			} else {
				joined = append(joined, ref.Match{Optional: i%4 == 3, Parts: []ref.Part{part(nP(fmt.Sprint("v", i-1)), ref.RelPat{Types: []string{"X"}}, nP(fmt.Sprint("v", i)))}})
			}
			m := ref.Match{Parts: []ref.Part{nodePart(nP(fmt.Sprint("v", i)))}, Where: cmp(prop(fmt.Sprint("v", i), "k"), "=", lit(i%5))}
			if i > 0 {
				m.Where = ref.Bin{Op: "AND", A: m.Where, B: cmp(prop(fmt.Sprint("v", i-1), "k"), "=", lit((i-1)%5))}
			}
			where = append(where, m)
			c := ref.Expr(cmp(prop("v", "k"), "<>", lit(i)))
			if w1 == nil {
				w1 = c
			} else {
				w1 = ref.Bin{Op: "AND", A: w1, B: c}
			}
		}
		add("parts of a MATCH", n, []ref.Match{one})
		add("MATCH clauses", n, many)
		add("OPTIONAL MATCH clauses", n, opt)
		add("MATCH clauses that follow a chain", n, joined)
		add("MATCH clauses with WHERE", n, where)
		add("conditions of a WHERE", n, []ref.Match{{Parts: []ref.Part{nodePart(nP("v"))}, Where: w1}})
	}
	eachQuery(r, []*ref.Graph{sizeGraph(9), sizeGraph(24)}, sq, qopts{})
	// Many rows
	mk := func(opt bool, where ref.Expr, ps ...ref.Part) ref.Match {
		return ref.Match{Optional: opt, Where: where, Parts: ps}
	}
	X := ref.RelPat{Types: []string{"X"}}
	var qs []ref.Query
	for _, ms := range [][]ref.Match{
		{mk(false, nil, nodePart(nP("a")), nodePart(nP("b", "B")))},
		{mk(false, cmp(prop("a", "p"), "=", lit(2)), nodePart(nP("a"))), mk(false, cmp(prop("b", "p"), "=", prop("a", "p")), nodePart(nP("b")))},
		{mk(false, nil, nodePart(nP("a"))), mk(true, nil, part(nP("a"), X, nP("b", "B")))},
		{mk(false, nil, nodePart(nP("a"))), mk(true, cmp(prop("b", "q"), "=", lit(1)), part(nP("a"), X, nP("b"))), mk(true, nil, part(nP("b"), X, nP("c", "A")))},
		{mk(false, nil, nodePart(nP("a", "A"))), mk(true, cmp(prop("b", "k"), "=", prop("a", "k")), nodePart(nP("b", "B")))},
		{mk(false, nil, part(nP("a"), X, nP("b")), part(nP("b"), X, nP("c")))},
		{mk(false, cmp(prop("a", "q"), "<>", lit(1)), nodePart(nP("a")))},
		{mk(false, ref.IsNull{E: prop("a", "q")}, nodePart(nP("a")))},
		{mk(false, ref.Bin{Op: "OR", A: cmp(prop("a", "q"), "=", lit(2)), B: cmp(prop("a", "k"), ">", lit(10))}, nodePart(nP("a")))},
	} {
		qs = append(qs, ref.Q(ms, nil, varsReturn(allParts(ms)...)))
	}
	eachSize(r, sizes(r, 30, 66), sizeGraph, qs, qopts{})
}

// C11: many rows, columns and sort keys
func sizesC11(r *mc.Run) {
	item := func(e ref.Expr, as string) ref.Item { return ref.Item{E: e, As: as} }
	ns := sizes(r, 40, 130)
	params := map[string]ref.V{"s": 13}
	opts := ref.Opts{Params: params}
	gs := sizeGraphs(ns)
	// The nodes the other way round
	for i := range ns {
		g, h := gs[i], ref.NewGraph()
		ids := g.NodeIDs()
		for k := range ids {
			n := g.Nodes[ids[len(ids)-1-k]]
			h.AddNode(n.Labels, cloneProps(n.Props))
		}
		gs = append(gs, h)
	}
	reads := reads1(nodePart(nP("n")))
	var rets []ref.Return
	proj := []ref.Return{
		{Items: []ref.Item{item(prop("n", "k"), "k"), item(prop("n", "p"), "p")}},
		{Items: []ref.Item{item(prop("n", "p"), "p")}},
		{Items: []ref.Item{item(prop("n", "q"), ""), item(prop("n", "s"), "")}},
		{Star: true},
	}
	keys := [][]ref.SortItem{nil}
	for _, k := range []string{"p", "q", "s", "k"} {
		for _, d := range []bool{false, true} {
			keys = append(keys, []ref.SortItem{{E: prop("n", k), Desc: d}})
			for _, k2 := range []string{"p", "q", "s"} {
				if k2 != k && k != "k" {
					keys = append(keys, []ref.SortItem{{E: prop("n", k), Desc: d}, {E: prop("n", k2), Desc: !d}}, []ref.SortItem{{E: prop("n", k), Desc: d}, {E: prop("n", k2)}, {E: prop("n", "k"), Desc: true}})
				}
			}
		}
	}
	keys = append(keys, []ref.SortItem{{E: lit(1)}}, []ref.SortItem{{E: ref.Bin{Op: "%", A: prop("n", "k"), B: lit(4)}, Desc: true}})
	for pi, p := range proj {
		for ki, k := range keys {
			if pi > 0 && ki%3 != 0 {
				continue
			}
			for li, l := range [][2]ref.Expr{{nil, nil}, {lit(1), nil}, {nil, lit(1)}, {nil, lit(12)}, {lit(12), lit(13)}, {ref.Param("s"), nil}, {nil, lit(40)}, {lit(39), lit(100)}, {lit(0), lit(0)}} {
				if li > 2 && (ki+pi)%4 != 0 {
					continue
				}
				q := p
				q.Order, q.Skip, q.Limit = k, l[0], l[1]
				rets = append(rets, q)
			}
		}
		for _, l := range [][2]ref.Expr{{nil, nil}, {lit(1), lit(3)}, {lit(2), nil}, {nil, lit(12)}} {
			q := p
			q.Distinct, q.Skip, q.Limit = true, l[0], l[1]
			rets = append(rets, q)
			if pi < 2 {
				q.Order = []ref.SortItem{{E: ref.Var("p"), Desc: true}}
				rets = append(rets, q)
			}
		}
	}
	r.Note("cases_of_growing_size", int64(len(rets)*len(gs)))
	r.Par(len(rets), func(w *mc.W, i int) {
		runReturn(w, fmt.Sprintf("graphs of up to %d nodes in both orders", ns[len(ns)-1]), gs, reads, rets[i], opts)
	})
	// Many columns and keys
	cg := []*ref.Graph{sizeGraph(0), sizeGraph(7), sizeGraph(20)}
	var crets []ref.Return
	for _, n := range sizes(r, 40, 130)[1:] {
		var named, unnamed, mixed ref.Return
		var keys []ref.SortItem
		for i := 0; i < n; i++ {
			e := []ref.Expr{prop("n", "k"), lit(i), prop("n", "p"), ref.Bin{Op: "+", A: prop("n", "k"), B: lit(i)}}[i%4]
			named.Items = append(named.Items, item(e, fmt.Sprint("c", i)))
			unnamed.Items = append(unnamed.Items, item(e, ""))
			if i%2 == 0 {
				mixed.Items = append(mixed.Items, item(e, ""))
			} else {
				mixed.Items = append(mixed.Items, item(e, fmt.Sprint("c", i)))
			}
			k := ref.SortItem{E: lit(1)}
			if i == n-1 {
				k = ref.SortItem{E: prop("n", "p"), Desc: true}
			}
			keys = append(keys, k)
		}
		crets = append(crets, named, unnamed, mixed)
		d := unnamed
		d.Distinct = true
		o := named
		o.Order = keys
		l := mixed
		l.Limit, l.Skip = lit(5), lit(2)
		crets = append(crets, d, o, l)
	}
	r.Note("cases_of_growing_size", int64(len(crets)*len(cg)))
	r.Par(len(crets), func(w *mc.W, i int) {
		runReturn(w, "graphs of 0, 7 and 20 nodes", cg, reads, crets[i], opts)
	})
	// RETURN * of many variables
	var sq []sizedQuery
	for _, n := range sizes(r, 20, 33)[1:] {
		var m ref.Match
		for i := 0; i < n; i++ {
			m.Parts = append(m.Parts, nodePart(ref.NodePat{Var: fmt.Sprint("v", i), Props: mapX("k", lit(i%7))}))
		}
		sq = append(sq, sizedQuery{"RETURN * of variables", n, ref.Q([]ref.Match{m}, nil, starReturn())})
	}
	eachQuery(r, []*ref.Graph{sizeGraph(7), sizeGraph(5)}, sq, qopts{})
}

// C12: many queries in a union, and many rows
func sizesC12(r *mc.Run) {
	mkSingle := func(i, kind int) ref.Single {
		switch kind {
		case 0:
			return ref.Single{Ret: &ref.Return{Items: []ref.Item{{E: lit(i % 5), As: "x"}}}}
		case 1:
			return ref.Single{Ret: &ref.Return{Items: []ref.Item{{E: lit(i), As: "x"}}}}
		}
		rt := &ref.Return{Items: []ref.Item{{E: prop("n", "p"), As: "x"}}}
		rt.Order = []ref.SortItem{{E: ref.Var("x"), Desc: i%2 == 1}}
		return ref.Single{Reads: reads1(nodePart(nP("n"))), Ret: rt}
	}
	var sq []sizedQuery
	for _, n := range sizes(r, 24, 33)[2:] {
		for kind := 0; kind < 3; kind++ {
			for mode := -3; mode < n-1; mode++ {
				if mode > 4 && mode < n-3 && mode%5 != 0 {
					continue
				}
				q := ref.Query{}
				for i := 0; i < n; i++ {
					q.Singles = append(q.Singles, mkSingle(i, kind))
					if i > 0 {
						// All UNION, all UNION ALL, alternating, or one that
						// differs
						q.All = append(q.All, mode == -2 || mode == -3 && i%2 == 0 || mode >= 0 && i-1 != mode)
					}
				}
				sq = append(sq, sizedQuery{fmt.Sprintf("union (%d, %d) of queries", kind, mode), n, q})
			}
		}
	}
	eachQuery(r, []*ref.Graph{sizeGraph(0), sizeGraph(6)}, sq, qopts{ordered: true})
	// Many rows
	single := func(e ref.Expr, label string) ref.Single {
		var l []string
		if label != "" {
			l = []string{label}
		}
		rt := &ref.Return{Items: []ref.Item{{E: e, As: "x"}}, Order: []ref.SortItem{{E: prop("n", "k")}}}
		return ref.Single{Reads: reads1(nodePart(nP("n", l...))), Ret: rt}
	}
	var qs []ref.Query
	alpha := []ref.Single{single(prop("n", "k"), ""), single(prop("n", "k"), "A"), single(prop("n", "p"), ""), single(prop("n", "q"), "B"), single(ref.Var("n"), "A"), single(ref.Var("n"), "B"), single(ref.ListX{prop("n", "p"), prop("n", "q")}, "")}
	for _, a := range alpha {
		for _, b := range alpha {
			for _, all := range []bool{false, true} {
				qs = append(qs, ref.Query{Singles: []ref.Single{a, b}, All: []bool{all}})
			}
		}
	}
	eachSize(r, sizes(r, 30, 66), sizeGraph, qs, qopts{ordered: true})
}

// C13: CREATE of many elements and for many rows
func sizesC13(r *mc.Run) {
	var sq []sizedQuery
	X := func(v string) ref.RelPat { return ref.RelPat{Var: v, Types: []string{"X"}} }
	for _, n := range sizes(r, 24, 66)[1:] {
		var nodes, rels, chain ref.Create
		var many []ref.Update
		cp := ref.Part{Nodes: []ref.NodePat{{Var: "h", Labels: []string{"H"}}}}
		mx := ref.MapX{}
		var labs []string
		for i := 0; i < n; i++ {
			p := nodePart(ref.NodePat{Var: fmt.Sprint("v", i), Labels: []string{"N"}, Props: mapX("i", lit(i))})
			nodes.Parts = append(nodes.Parts, p)
			many = append(many, ref.Create{Parts: []ref.Part{p}})
			rels.Parts = append(rels.Parts, part(nP("h"), X(fmt.Sprint("e", i)), ref.NodePat{Var: fmt.Sprint("v", i), Props: mapX("i", lit(i))}))
			rp := X("")
			if i%3 == 1 {
				rp.Dir = ref.Left
			}
			rp.Props = mapX("w", lit(i))
			cp.Rels = append(cp.Rels, rp)
			cp.Nodes = append(cp.Nodes, ref.NodePat{Var: fmt.Sprint("v", i), Props: mapX("i", lit(i))})
			mx = append(mx, ref.KV{K: fmt.Sprint("p", i), E: lit(i)})
			labs = append(labs, fmt.Sprint("L", i))
		}
		chain.Parts = []ref.Part{cp}
		ret := func(ps ...ref.Part) *ref.Return { return varsReturn(ps...) }
		sq = append(sq,
			sizedQuery{"CREATE of nodes", n, ref.Q(nil, []ref.Update{nodes}, ret(nodes.Parts...))},
			sizedQuery{"CREATE of nodes without RETURN", n, ref.Q(nil, []ref.Update{nodes}, nil)},
			sizedQuery{"CREATE of nodes in clauses", n, ref.Q(nil, many, ret(nodes.Parts...))},
			sizedQuery{"CREATE of relationships of a new node", n, ref.Q(nil, []ref.Update{ref.Create{Parts: append([]ref.Part{nodePart(nP("h", "H"))}, rels.Parts...)}}, nil)},
			sizedQuery{"CREATE of a chain", n, ref.Q(nil, []ref.Update{chain}, ret(cp))},
			sizedQuery{"CREATE with properties", n, ref.Q(nil, []ref.Update{ref.Create{Parts: []ref.Part{part(ref.NodePat{Var: "n", Props: mx}, ref.RelPat{Types: []string{"X"}, Props: mx}, nP("m", labs...))}}}, ret(nodePart(nP("n")), nodePart(nP("m"))))})
	}
	eachQuery(r, []*ref.Graph{sizeGraph(0), sizeGraph(3)}, sq, qopts{})
	a := nodePart(nP("a"))
	px := func(v string, e ref.Expr, l ...string) ref.NodePat {
		return ref.NodePat{Var: v, Labels: l, Props: mapX("i", e)}
	}
	var qs []ref.Query
	for _, ps := range [][]ref.Part{
		{nodePart(px("m", prop("a", "k"), "N"))}, {part(nP("a"), X("e"), px("m", prop("a", "k"), "N"))}, {part(px("m", prop("a", "k")), X(""), nP("a")), part(nP("a"), ref.RelPat{Types: []string{"Z"}, Props: mapX("w", prop("a", "k"))}, nP("a"))},
	} {
		qs = append(qs, ref.Q(reads1(a), []ref.Update{ref.Create{Parts: ps}}, varsReturn(append(ps, a)...)), ref.Q(reads1(a), []ref.Update{ref.Create{Parts: ps}}, nil),
			ref.Q([]ref.Match{{Parts: []ref.Part{nodePart(nP("a", "A"))}, Where: cmp(prop("a", "p"), "<", lit(3))}}, []ref.Update{ref.Create{Parts: ps}, ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "a", Key: "z", E: lit(1)}}}}, nil))
	}
	qs = append(qs, ref.Q(reads1(part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}}, nP("b"))), []ref.Update{ref.Create{Parts: []ref.Part{part(nP("b"), ref.RelPat{Types: []string{"R"}, Props: mapX("w", prop("e", "w"))}, nP("a"))}}}, nil))
	eachSize(r, sizes(r, 30, 66), sizeGraph, qs, qopts{})
}

// C14: many items and rows
func sizesC14(r *mc.Run) {
	set := func(kind, v, k string, e ref.Expr, labels ...string) ref.SetItem {
		return ref.SetItem{Kind: kind, Var: v, Key: k, E: e, Labels: labels}
	}
	plus1 := func(k string) ref.Expr { return ref.Bin{Op: "+", A: prop("n", k), B: lit(1)} }
	n1 := reads1(nodePart(nP("n")))
	var sq []sizedQuery
	for _, n := range sizes(r, 24, 66)[1:] {
		var inc, diff, lab ref.Set
		var incs []ref.Update
		var rem, reml ref.Remove
		mx := ref.MapX{}
		var labs []string
		for i := 0; i < n; i++ {
			k := fmt.Sprint("x", i)
			inc.Items = append(inc.Items, set("prop", "n", "k", plus1("k")))
			incs = append(incs, ref.Set{Items: []ref.SetItem{set("prop", "n", "k", plus1("k"))}})
			diff.Items = append(diff.Items, set("prop", "n", k, lit(i)))
			lab.Items = append(lab.Items, set("label", "n", "", nil, fmt.Sprint("L", i)))
			rem.Items = append(rem.Items, ref.RemoveItem{Var: "n", Key: fmt.Sprint("x", (i*7)%n)})
			reml.Items = append(reml.Items, ref.RemoveItem{Var: "n", Labels: []string{fmt.Sprint("L", i)}})
			labs = append(labs, fmt.Sprint("L", i))
			mx = append(mx, ref.KV{K: k, E: lit(i)})
		}
		one := func(its ...ref.SetItem) ref.Update { return ref.Set{Items: its} }
		half := ref.Remove{Items: rem.Items[:n/2+1]}
		sq = append(sq, sizedQuery{"SET that counts", n, ref.Q(n1, []ref.Update{inc}, nil)}, sizedQuery{"SET clauses that count", n, ref.Q(n1, incs, nil)}, sizedQuery{"SET of properties", n, ref.Q(n1, []ref.Update{diff}, varsReturn(nodePart(nP("n"))))}, sizedQuery{"SET of labels", n, ref.Q(n1, []ref.Update{lab}, nil)},
			sizedQuery{"SET of a list of labels", n, ref.Q(n1, []ref.Update{one(set("label", "n", "", nil, labs...))}, nil)}, sizedQuery{"SET = map", n, ref.Q(n1, []ref.Update{one(set("=", "n", "", mx))}, nil)}, sizedQuery{"SET += map", n, ref.Q(n1, []ref.Update{one(set("+=", "n", "", mx))}, nil)},
			sizedQuery{"SET and REMOVE of properties", n, ref.Q(n1, []ref.Update{diff, half}, nil)}, sizedQuery{"SET and REMOVE of labels", n, ref.Q(n1, []ref.Update{lab, ref.Remove{Items: reml.Items[n/2:]}}, nil)}, sizedQuery{"SET of labels, REMOVE of a list", n, ref.Q(n1, []ref.Update{lab, ref.Remove{Items: []ref.RemoveItem{{Var: "n", Labels: labs[n/2:]}}}}, nil)},
			sizedQuery{"SET = map, then an empty map", n, ref.Q(n1, []ref.Update{one(set("=", "n", "", mx)), one(set("=", "n", "", ref.MapX{}))}, nil)}, sizedQuery{"REMOVE of unknown properties", n, ref.Q(n1, []ref.Update{rem}, nil)})
	}
	eachQuery(r, []*ref.Graph{sizeGraph(3)}, sq, qopts{})
	var qs []ref.Query
	for _, u := range []ref.Update{
		ref.Set{Items: []ref.SetItem{set("prop", "n", "p", plus1("k"))}}, ref.Set{Items: []ref.SetItem{set("prop", "n", "q", lit(nil)), set("label", "n", "", nil, "L", "B")}}, ref.Set{Items: []ref.SetItem{set("=", "n", "", mapX("k", prop("n", "k"), "z", prop("n", "q")))}}, ref.Set{Items: []ref.SetItem{set("+=", "n", "", mapX("q", plus1("p"), "s", lit(nil)))}},
		ref.Remove{Items: []ref.RemoveItem{{Var: "n", Key: "p"}, {Var: "n", Labels: []string{"A"}}}}, ref.Remove{Items: []ref.RemoveItem{{Var: "n", Labels: []string{"A", "B"}}}},
	} {
		for _, rd := range [][]ref.Match{n1, reads1(nodePart(nP("n", "B"))), {{Parts: []ref.Part{nodePart(nP("n"))}, Where: cmp(prop("n", "p"), ">", lit(1))}}, reads1(part(nP("n"), ref.RelPat{Types: []string{"X"}}, nP("m")))} {
			qs = append(qs, ref.Q(rd, []ref.Update{u}, nil), ref.Q(rd, []ref.Update{u}, varsReturn(nodePart(nP("n")))))
		}
	}
	// Several rows for the same node
	two := reads1(nodePart(nP("n", "B")), nodePart(nP("m", "A")))
	qs = append(qs, ref.Q(two, []ref.Update{ref.Set{Items: []ref.SetItem{set("prop", "n", "c", ref.Case{When: []ref.Expr{ref.IsNull{E: prop("n", "c")}}, Then: []ref.Expr{lit(1)}, Else: plus1("c")})}}}, nil))
	eachSize(r, sizes(r, 30, 66), sizeGraph, qs, qopts{})
}

// C15: many elements
func sizesC15(r *mc.Run) {
	del := func(detach bool, vs ...string) ref.Update {
		d := ref.Delete{Detach: detach}
		for _, v := range vs {
			d.Exprs = append(d.Exprs, ref.Var(v))
		}
		return d
	}
	a := nodePart(nP("a"))
	e := part(nP("a"), ref.RelPat{Var: "e", Types: []string{"X"}}, nP("b"))
	ee := part(nP("a"), ref.RelPat{Var: "e"}, nP("b"))
	ud := part(nP("a"), ref.RelPat{Var: "e", Dir: ref.Both}, nP("b"))
	hub := part(ref.NodePat{Var: "a", Props: mapX("k", lit(0))}, ref.RelPat{Var: "e", Dir: ref.Both}, nP("b"))
	pth := part(ref.NodePat{Var: "a", Props: mapX("k", lit(0))}, ref.RelPat{Var: "e", Rng: "*", Types: []string{"X"}}, nP("b"))
	var qs []ref.Query
	for _, detach := range []bool{false, true} {
		for _, rd := range [][]ref.Match{reads1(a), reads1(nodePart(nP("a", "A"))), {{Parts: []ref.Part{a}, Where: cmp(prop("a", "p"), "=", lit(2))}}, reads1(nodePart(ref.NodePat{Var: "a", Props: mapX("k", lit(0))})), reads1(nodePart(ref.NodePat{Var: "a", Props: mapX("k", lit(12))}))} {
			qs = append(qs, ref.Q(rd, []ref.Update{del(detach, "a")}, nil), ref.Q(rd, []ref.Update{del(detach, "a")}, retItems(lit(1))))
		}
		for _, p := range []ref.Part{e, ee, ud, hub, pth} {
			for _, vs := range [][]string{{"e"}, {"a", "e"}, {"a", "b", "e"}, {"b"}, {"a", "b"}} {
				if (len(vs) > 1 || vs[0] == "b") && !detach && len(p.Rels) > 0 && p.Rels[0].Rng != "" {
					continue
				}
				qs = append(qs, ref.Q(reads1(p), []ref.Update{del(detach, vs...)}, nil))
			}
		}
	}
	// Every row names the same node
	qs = append(qs, ref.Q(reads1(nodePart(ref.NodePat{Var: "a", Props: mapX("k", lit(1))}), nodePart(nP("b"))), []ref.Update{del(true, "a")}, nil))
	ns := sizes(r, 30, 66)
	eachSize(r, ns, sizeGraph, qs, qopts{})
	eachSize(r, ns, freeGraph, qs[:10], qopts{})
	// Many expressions
	var sq []sizedQuery
	for _, n := range sizes(r, 20, 33)[1:] {
		var m ref.Match
		var vs []string
		var cl []ref.Update
		for i := 0; i < n; i++ {
			v := fmt.Sprint("v", i)
			m.Parts = append(m.Parts, nodePart(ref.NodePat{Var: v, Props: mapX("k", lit(i%9))}))
			vs = append(vs, v)
			if i < 9 {
				cl = append(cl, del(true, v))
			}
		}
		sq = append(sq, sizedQuery{"DELETE of expressions", n, ref.Q([]ref.Match{m}, []ref.Update{del(false, vs...)}, nil)}, sizedQuery{"DETACH DELETE of expressions", n, ref.Q([]ref.Match{m}, []ref.Update{del(true, vs...)}, nil)}, sizedQuery{"DELETE clauses", n, ref.Q([]ref.Match{m}, cl, nil)})
	}
	eachQuery(r, []*ref.Graph{freeGraph(9), sizeGraph(9)}, sq, qopts{})
}

// C16: MERGE for many rows, many clauses
func sizesC16(r *mc.Run) {
	mx := func(kv ...interface{}) ref.MapX { return mapX(kv...) }
	setK := func(v, k string, e ref.Expr) ref.SetItem { return ref.SetItem{Kind: "prop", Var: v, Key: k, E: e} }
	a := nodePart(nP("a"))
	count := []ref.MergeAct{{OnCreate: true, Set: ref.Set{Items: []ref.SetItem{setK("m", "c", lit(1))}}}, {OnCreate: false, Set: ref.Set{Items: []ref.SetItem{setK("m", "c", ref.Case{When: []ref.Expr{ref.IsNull{E: prop("m", "c")}}, Then: []ref.Expr{lit(100)}, Else: ref.Bin{Op: "+", A: prop("m", "c"), B: lit(1)}})}}}}
	var qs []ref.Query
	for _, p := range []ref.Part{
		nodePart(ref.NodePat{Var: "m", Labels: []string{"M"}, Props: mx("v", prop("a", "k"))}), nodePart(ref.NodePat{Var: "m", Labels: []string{"M"}, Props: mx("v", prop("a", "p"))}), nodePart(ref.NodePat{Var: "m", Labels: []string{"M"}}), nodePart(ref.NodePat{Var: "m", Labels: []string{"B"}, Props: mx("k", prop("a", "k"))}),
		part(nP("a"), ref.RelPat{Types: []string{"X"}}, nP("m")), part(nP("a"), ref.RelPat{Types: []string{"Y"}}, nP("m", "H")), part(nP("a"), ref.RelPat{Types: []string{"X"}, Dir: ref.Left}, ref.NodePat{Var: "m", Labels: []string{"A"}}),
	} {
		for _, acts := range [][]ref.MergeAct{nil, count} {
			m := ref.Merge{Part: p, Acts: acts}
			qs = append(qs, ref.Q(reads1(a), []ref.Update{m}, nil))
			if len(acts) == 0 {
				qs = append(qs, ref.Q(reads1(a), []ref.Update{m}, retItems(prop("a", "k"), ref.Var("m"))))
			}
		}
	}
	// The node is the same for all rows
	m := ref.Merge{Part: nodePart(ref.NodePat{Var: "m", Labels: []string{"M"}, Props: mx("v", lit(1))}), Acts: count}
	rel := ref.Merge{Part: part(nP("a"), ref.RelPat{Types: []string{"T"}}, nP("m"))}
	qs = append(qs, ref.Q(reads1(a), []ref.Update{m}, nil), ref.Q(reads1(a), []ref.Update{m, rel}, nil), ref.Q(nil, []ref.Update{m}, nil))
	ns := sizes(r, 24, 66)
	eachSize(r, ns, sizeGraph, qs, qopts{})
	var sq []sizedQuery
	for _, n := range sizes(r, 20, 33)[1:] {
		var ms, same []ref.Update
		mxp := ref.MapX{}
		chain := ref.Part{Nodes: []ref.NodePat{{Var: "v0", Labels: []string{"C"}, Props: mx("i", lit(0))}}}
		for i := 0; i < n; i++ {
			ms = append(ms, ref.Merge{Part: nodePart(ref.NodePat{Var: fmt.Sprint("v", i), Labels: []string{"M"}, Props: mx("i", lit(i%6))})})
			mm := m
			mm.Part = nodePart(ref.NodePat{Labels: []string{"M"}, Props: mx("v", lit(1))})
			mm.Acts = nil
			same = append(same, mm)
			mxp = append(mxp, ref.KV{K: fmt.Sprint("p", i), E: lit(i)})
			chain.Rels = append(chain.Rels, ref.RelPat{Types: []string{"X"}})
			chain.Nodes = append(chain.Nodes, ref.NodePat{Var: fmt.Sprint("v", i+1), Labels: []string{"C"}, Props: mx("i", lit(i+1))})
		}
		sq = append(sq, sizedQuery{"MERGE clauses", n, ref.Q(nil, ms, nil)}, sizedQuery{"MERGE clauses of the same", n, ref.Q(nil, same, nil)}, sizedQuery{"MERGE of a chain", n, ref.Q(nil, []ref.Update{ref.Merge{Part: chain}}, nil)}, sizedQuery{"MERGE of a chain twice", n, ref.Q(nil, []ref.Update{ref.Merge{Part: chain}, ref.Merge{Part: renamed(chain)}}, nil)},
			sizedQuery{"MERGE with properties", n, ref.Q(nil, []ref.Update{ref.Merge{Part: nodePart(ref.NodePat{Var: "n", Props: mxp})}, ref.Merge{Part: nodePart(ref.NodePat{Var: "m", Props: mxp})}}, varsReturn(nodePart(nP("n")), nodePart(nP("m"))))})
		var acts []ref.MergeAct
		for i := 0; i < n; i++ {
			acts = append(acts, ref.MergeAct{OnCreate: i%2 == 0, Set: ref.Set{Items: []ref.SetItem{setK("m", fmt.Sprint("a", i), lit(i))}}})
		}
		am := ref.Merge{Part: nodePart(ref.NodePat{Var: "m", Labels: []string{"M"}}), Acts: acts}
		sq = append(sq, sizedQuery{"actions of a MERGE", n, ref.Q(nil, []ref.Update{am}, nil)}, sizedQuery{"actions of a MERGE per row", n, ref.Q(reads1(a), []ref.Update{am}, nil)})
	}
	eachQuery(r, []*ref.Graph{sizeGraph(0), sizeGraph(3)}, sq, qopts{})
}

// renamed gives the pattern other variables
func renamed(p ref.Part) ref.Part {
	out := ref.Part{Rels: append([]ref.RelPat{}, p.Rels...)}
	for _, n := range p.Nodes {
		n.Var = "r" + n.Var
		out.Nodes = append(out.Nodes, n)
	}
	return out
}

// C17: indexed lookups in larger graphs, before and after updates
func sizesC17(r *mc.Run) {
	ns := upTo(40, 130)
	if r.Thorough {
		ns = upTo(80, 258)
	}
	type cfg struct {
		ix     index
		before bool
	}
	var cfgs []cfg
	for i, c := range indexConfigs() {
		for _, b := range []bool{true, false} {
			if r.Thorough || i%3 == 2 || i < 2 {
				cfgs = append(cfgs, cfg{c, b})
			}
		}
	}
	r.Note("cases_of_growing_size", int64(len(ns)*len(cfgs)))
	r.Par(len(ns)*len(cfgs), func(w *mc.W, i int) {
		n, c := ns[i/len(cfgs)], cfgs[i%len(cfgs)]
		w.Case(fmt.Sprintf("lookups in a graph of %d nodes with %s (before the data: %v)", n, c.ix.name, c.before), func() string {
			g := ref.NewGraph()
			for k := 0; k < n; k++ {
				p := ref.Map{"p": k * 5 % (n/2 + 1), "k": k}
				if k%3 != 0 {
					p["q"] = k % 7
				}
				g.AddNode([]string{[]string{"A", "B"}[k%2]}, p)
			}
			for k := 0; k+1 < n; k++ {
				g.AddEdge(ref.NodeID(k), ref.NodeID(k+1), "X", ref.Map{"p": k % 4})
			}
			var bo sut.BuildOpts
			if c.before {
				bo.Before = c.ix.add
			} else {
				bo.After = c.ix.add
			}
			world := sut.Build(g, bo)
			ask := func() string {
				for v := -1; v <= n/2+2; v++ {
					if n > 70 && v > 3 && v < n/2-3 && v%20 > 1 {
						continue
					}
					params := map[string]ref.V{"v": v}
					for _, p := range []ref.Part{nodePart(ref.NodePat{Var: "n", Props: mapX("p", ref.Param("v"))}), nodePart(ref.NodePat{Var: "n", Labels: []string{"A"}, Props: mapX("p", ref.Param("v"), "q", lit(2))}), part(nP("a"), ref.RelPat{Var: "e", Props: mapX("p", ref.Param("v"))}, nP("b")), part(ref.NodePat{Var: "a", Props: mapX("p", ref.Param("v"))}, ref.RelPat{Var: "e"}, nP("b"))} {
						q := matchQ(p)
						pq, err := w.Cache.Parse(q.Str())
						if err != nil {
							return err.Error()
						}
						out := world.Eval(pq, world.Ctx(nil, params))
						exp := ref.Run(g, q, ref.Opts{Params: params})
						w.R.Trace(1)
						w.R.Trans(1)
						if out.Err != nil || out.Panic != "" || rowsText(out.Rows, false) != rowsText(exp.Rows, false) {
							return fmt.Sprintf("%s for $v = %d gives %s, expected %s", q.Str(), v, clipText2(out.String()), clipText2(rowsText(exp.Rows, false)))
						}
					}
				}
				w.R.State(fmt.Sprint(c.ix.name, c.before, g.Text()))
				return ""
			}
			if s := ask(); s != "" {
				return s
			}
			for _, u := range []ref.Update{ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "n", Key: "p", E: ref.Bin{Op: "+", A: prop("n", "p"), B: lit(1)}}}}, ref.Remove{Items: []ref.RemoveItem{{Var: "n", Key: "p"}}}, ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "n", Key: "p", E: lit(3)}}}} {
				q := ref.Q([]ref.Match{{Parts: []ref.Part{nodePart(nP("n", "B"))}, Where: cmp(ref.Bin{Op: "%", A: prop("n", "k"), B: lit(3)}, "=", lit(1))}}, []ref.Update{u}, nil)
				p, err := w.Cache.Parse(q.Str())
				if err != nil {
					return err.Error()
				}
				ng, _, s := step(w, world, g, p, q, world.Ctx(nil, nil), qopts{exact: true})
				if s != "" {
					return q.Str() + " " + clipText2(s)
				}
				g = ng
				if s := ask(); s != "" {
					return "after " + q.Str() + ": " + s
				}
			}
			return ""
		})
	})
}

// C18: histories of larger graphs
func sizesC18(r *mc.Run) {
	ns := sizes(r, 24, 66)[2:]
	r.Note("cases_of_growing_size", int64(len(ns)))
	type job struct{ n, k int }
	var jobs []job
	for _, n := range ns {
		// The newest node is not deleted: see knownTail
		for _, k := range few(n-1, 7, 8, 15, 16) {
			jobs = append(jobs, job{n, k})
		}
	}
	r.Par(len(jobs), func(w *mc.W, i int) {
		n, k := jobs[i].n, jobs[i].k
		w.Case(fmt.Sprintf("history of %d nodes, deleting number %d", n, k), func() string {
			g := ref.NewGraph()
			world := sut.NewWorld()
			run := func(q ref.Query, params map[string]ref.V) string {
				p, err := w.Cache.Parse(q.Str())
				if err != nil {
					return clipText(q.Str()) + ": " + err.Error()
				}
				defer w.Cache.Forget(q.Str())
				ng, _, s := step(w, world, g, p, q, world.Ctx(nil, params), qopts{params: params, exact: true})
				if s != "" {
					return clipText(q.Str()) + envText(params) + " " + clipText2(s)
				}
				g = ng
				w.R.State(g.Text())
				return ""
			}
			c := ref.Create{}
			for j := 0; j < n; j++ {
				c.Parts = append(c.Parts, nodePart(ref.NodePat{Var: fmt.Sprint("v", j), Labels: []string{[]string{"A", "B", "C"}[j%3]}, Props: mapX("k", lit(j))}))
			}
			for j := 0; j+1 < n; j++ {
				c.Parts = append(c.Parts, part(nP(fmt.Sprint("v", j)), ref.RelPat{Types: []string{"X"}}, nP(fmt.Sprint("v", j+1))))
				if j%4 == 1 {
					c.Parts = append(c.Parts, part(nP(fmt.Sprint("v", j)), ref.RelPat{Types: []string{"Y"}, Props: mapX("k", lit(j))}, nP("v0")))
				}
			}
			at := reads1(nodePart(ref.NodePat{Var: "n", Props: mapX("k", ref.Param("k"))}))
			steps := []struct {
				q ref.Query
				p map[string]ref.V
			}{
				{ref.Q(nil, []ref.Update{c}, nil), nil},
				{ref.Q(at, []ref.Update{ref.Delete{Exprs: []ref.Expr{ref.Var("n")}}}, nil), map[string]ref.V{"k": k}},
				{ref.Q(at, []ref.Update{ref.Delete{Detach: true, Exprs: []ref.Expr{ref.Var("n")}}}, nil), map[string]ref.V{"k": k}},
				{ref.Q(reads1(part(nP("a"), ref.RelPat{Var: "e", Types: []string{"Y"}}, nP("b"))), []ref.Update{ref.Delete{Exprs: []ref.Expr{ref.Var("e")}}}, nil), nil},
				{ref.Q(reads1(nodePart(nP("n", "B"))), []ref.Update{ref.Set{Items: []ref.SetItem{{Kind: "label", Var: "n", Labels: []string{"D"}}}}, ref.Remove{Items: []ref.RemoveItem{{Var: "n", Labels: []string{"B"}}}}}, nil), nil},
				{ref.Q(reads1(nodePart(nP("n", "D"))), []ref.Update{ref.Create{Parts: []ref.Part{part(nP("n"), ref.RelPat{Types: []string{"Z"}}, ref.NodePat{Labels: []string{"E"}, Props: mapX("k", prop("n", "k"))})}}}, nil), nil},
				{ref.Q(reads1(nodePart(nP("n"))), []ref.Update{ref.Merge{Part: nodePart(ref.NodePat{Labels: []string{"M"}, Props: mapX("k", prop("n", "k"))})}}, nil), nil},
				{ref.Q(reads1(nodePart(nP("n", "A"))), []ref.Update{ref.Delete{Detach: true, Exprs: []ref.Expr{ref.Var("n")}}}, nil), nil},
			}
			for _, s := range steps {
				if m := run(s.q, s.p); m != "" {
					return m
				}
			}
			w.R.Sample(func() string { return fmt.Sprintf("%d nodes, deleting %d", n, k) })
			return ""
		})
	})
}

// C19: deep chains of contexts and many variables
func sizesC19(r *mc.Run) {
	ns := sizes(r, 24, 66)
	r.Note("cases_of_growing_size", int64(len(ns)))
	r.Par(len(ns), func(w *mc.W, i int) {
		n := ns[i]
		qv, _ := sut.SafeParse("RETURN x")
		qp, _ := sut.SafeParse("RETURN $x")
		var at []int
		for k := -1; k <= n; k++ {
			at = append(at, k)
		}
		if n > 12 {
			at = append(few(n+1), -1)
		}
		for _, set := range at {
			for _, shadow := range at {
				if shadow >= 0 && shadow <= set {
					continue
				}
				set, shadow := set, shadow
				w.Case(fmt.Sprintf("x set in context %d and %d of %d contexts in each other", set, shadow, n+1), func() string {
					world := exprWorld(w)
					ctx := world.Ctx(nil, nil)
					ctxs := []*oc.EvalContext{ctx}
					for k := 0; k < n; k++ {
						ctx = ctx.SubContext()
						ctxs = append(ctxs, ctx)
					}
					for _, s := range []struct{ at, v int }{{set, 1}, {shadow, 2}} {
						if s.at >= 0 {
							ctxs[s.at].SetVar("x", world.Value(s.v))
							ctxs[s.at].SetParameter("$x", world.Value(s.v+10))
						}
					}
					for k, c := range ctxs {
						want := 0
						if set >= 0 && k >= set {
							want = 1
						}
						if shadow >= 0 && k >= shadow {
							want = 2
						}
						for _, x := range []struct {
							q    oc.Evaluatable
							plus int
						}{{qv, 0}, {qp, 10}} {
							gv, gerr, bad := evalExpr(world, x.q, c)
							st := ref.OK
							if want == 0 {
								st = ref.ERR
							}
							w.R.Trace(1)
							w.R.Trans(1)
							if s := cmpValue(want+x.plus, st, gv, gerr, bad); s != "" {
								return fmt.Sprintf("context %d: variable or parameter %s", k, s)
							}
						}
					}
					w.R.State(fmt.Sprint(n, set, shadow))
					return ""
				})
			}
		}
		// Many variables, parameters and queries
		w.Case(fmt.Sprintf("%d variables and parameters", n), func() string {
			world := exprWorld(w)
			ctx := world.Ctx(nil, nil)
			for k := 0; k < n; k++ {
				if k%2 == 0 {
					ctx.SetVar(fmt.Sprint("v", k), world.Value(k))
				} else {
					q, err := sut.SafeParse(fmt.Sprintf("RETURN %d AS v%d", k, k))
					if err != nil {
						return err.Error()
					}
					// Sets no variable
					world.Eval(q, ctx)
					ctx.SetVar(fmt.Sprint("v", k), world.Value(k))
				}
				ctx.SetParameter(fmt.Sprint("$v", k), world.Value(-k))
			}
			for k := 0; k <= n; k++ {
				for _, t := range []string{"v", "$v"} {
					q, err := w.Cache.Parse(fmt.Sprintf("RETURN %s%d", t, k))
					if err != nil {
						return err.Error()
					}
					gv, gerr, bad := evalExpr(world, q, ctx)
					want, st := k, ref.OK
					if t == "$v" {
						want = -k
					}
					if k == n {
						st = ref.ERR
					}
					if s := cmpValue(want, st, gv, gerr, bad); s != "" {
						return fmt.Sprintf("%s%d %s", t, k, s)
					}
				}
			}
			return ""
		})
	})
}

// C21: pattern expressions on larger graphs
func sizesC21(r *mc.Run) {
	ns := sizes(r, 24, 66)[1:]
	var gs []*ref.Graph
	for _, n := range ns {
		gs = append(gs, sizeGraph(n))
	}
	rel := func(d ref.Dir, rng string, types ...string) ref.RelPat {
		return ref.RelPat{Dir: d, Rng: rng, Types: types}
	}
	pats := []ref.Part{
		part(nP("this"), rel(ref.Right, ""), nP("target")), part(nP("target"), rel(ref.Right, "", "X"), nP("this")), part(nP("this"), rel(ref.Both, ""), nP("target", "B")), part(nP("this"), rel(ref.Right, "*", "X"), nP("target", "A", "B")),
		part(nP("this"), rel(ref.Left, "*2..5", "X"), nP("target")), part3(nP("target"), rel(ref.Right, "", "Y"), nP(""), rel(ref.Right, "", "X"), nP("this")), part3(nP("target", "A"), rel(ref.Left, ""), nP("this"), rel(ref.Left, ""), nP("x")),
		part(ref.NodePat{Var: "this", Props: mapX("k", lit(0))}, rel(ref.Left, ""), nP("target")),
	}
	r.Note("cases_of_growing_size", int64(len(pats)*len(gs)))
	r.Par(len(pats)*len(gs), func(w *mc.W, i int) {
		g := gs[i%len(gs)]
		relativesCase(w, fmt.Sprintf("a graph of %d nodes", len(g.Nodes)), []*ref.Graph{g}, pats[i/len(gs)], fewOrders)
	})
}

// C22: large values and result sets
func sizesC22(r *mc.Run) {
	ns := sizes(r, 40, 300)
	r.Note("cases_of_growing_size", int64(len(ns)))
	r.Par(len(ns), func(w *mc.W, i int) {
		n := ns[i]
		w.Case(fmt.Sprintf("values of size %d", n), func() string {
			return safely(func() string {
				world := sameWorld(w)
				mk := func(k int, v ref.V) []ref.V {
					l, m, s := ref.List{}, ref.Map{}, ""
					nest := ref.List{}
					for j := 0; j < n; j++ {
						x := ref.V(j)
						c := "m"
						if j == k {
							x, c = v, "z"
						}
						l = append(l, x)
						m[fmt.Sprint("k", j)] = x
						s += c
						if j < 60 {
							nest = ref.List{x, nest}
						}
					}
					return []ref.V{l, m, s, nest}
				}
				base := mk(-1, nil)
				for bi, b := range base {
					if got := world.Model(world.Value(b)); ref.Key(got) != ref.Key(b) {
						return "a value changes when it is converted: " + clipText2(ref.Key(got))
					}
					for ci, c := range mk(-1, nil) {
						want := ref.Key(b) == ref.Key(c)
						if oc.IsValueSame(world.Value(b), world.Value(c)) != want {
							return fmt.Sprintf("values %d and %d: same is not %v", bi, ci, want)
						}
					}
				}
				for _, k := range few(n, 7, 8, 15, 16, 31, 32) {
					for _, v := range []ref.V{nil, -1, "x", 0.5} {
						for oi, o := range mk(k, v) {
							w.R.Trans(1)
							if o, b := world.Value(o), world.Value(base[oi]); oc.IsValueSame(o, b) || oc.IsValueSame(b, o) {
								if oi == 3 && k >= 60 {
									continue
								}
								return fmt.Sprintf("values of kind %d that differ in place %d are the same", oi, k)
							}
						}
					}
				}
				w.R.State(fmt.Sprint("values", n))
				return ""
			})
		})
		w.Case(fmt.Sprintf("result sets of %d rows", n), func() string {
			return safely(func() string {
				world := sameWorld(w)
				build := func(f func(j int) ref.Row, n int) (*oc.ResultSet, []ref.Row) {
					rs := oc.NewResultSet()
					var rows []ref.Row
					for j := 0; j < n; j++ {
						row := f(j)
						m := map[string]oc.Value{}
						for k, v := range row {
							m[k] = world.Value(v)
						}
						if err := rs.Append(m); err != nil {
							panic(err)
						}
						rows = append(rows, row)
					}
					return rs, rows
				}
				fs := []func(j int) ref.Row{
					func(j int) ref.Row { return ref.Row{"x": j} },
					func(j int) ref.Row { return ref.Row{"x": j % 7, "y": j % 3} },
					func(j int) ref.Row { return ref.Row{"x": float64(j), "y": nil} },
					func(j int) ref.Row { return ref.Row{"x": ref.List{j % 5, "a"}} },
				}
				for fi, f := range fs {
					for hi, h := range fs {
						for _, m := range []int{0, 1, n, n + 1} {
							for _, all := range []bool{true, false} {
								a, ra := build(f, n)
								b, rb := build(h, m)
								want := append(append([]ref.Row{}, ra...), rb...)
								if !all {
									want = ref.Distinct(want)
								}
								if err := a.Union(*b, all); err != nil {
									return err.Error()
								}
								w.R.Trans(1)
								if rowsKey(world.RowsOf(*a)) != rowsKey(want) {
									return fmt.Sprintf("union (all %v) of %d rows of kind %d and %d of kind %d gives %s", all, n, fi, m, hi, clipText2(rowsKey(world.RowsOf(*a))))
								}
							}
						}
					}
					a, ra := build(f, n)
					col := ref.List{}
					for _, row := range ra {
						col = append(col, row["x"])
					}
					if ref.Key(world.Model(a.Column("x"))) != ref.Key(col) {
						return "column of rows differs"
					}
					b, rb := build(func(j int) ref.Row { return ref.Row{"z": j} }, 3)
					got := oc.CartesianProduct([]oc.ResultSet{*a, *b}, false, func(map[string]oc.Value) bool { return true })
					var want []ref.Row
					for _, x := range ra {
						for _, y := range rb {
							row := ref.Row{}
							for k, v := range x {
								row[k] = v
							}
							for k, v := range y {
								row[k] = v
							}
							want = append(want, row)
						}
					}
					if strings.Join(sortedRows(world.RowsOf(got)), ";") != strings.Join(sortedRows(want), ";") {
						return "product of the rows differs"
					}
				}
				w.R.State(fmt.Sprint("rows", n))
				return ""
			})
		})
		// Many result sets with one or two rows
		if n <= 12 {
			w.Case(fmt.Sprintf("product of %d result sets", n), func() string {
				return safely(func() string {
					world := sameWorld(w)
					var in []oc.ResultSet
					total := 1
					for j := 0; j < n; j++ {
						rs := oc.NewResultSet()
						rs.Append(map[string]oc.Value{fmt.Sprint("x", j): world.Value(j)})
						if j%2 == 0 {
							rs.Append(map[string]oc.Value{fmt.Sprint("x", j): world.Value(-j - 1)})
							total *= 2
						}
						in = append(in, *rs)
					}
					got := oc.CartesianProduct(in, false, func(map[string]oc.Value) bool { return true })
					rows := world.RowsOf(got)
					seen := map[string]bool{}
					for _, row := range rows {
						if len(row) != n {
							return "row " + row.Key()
						}
						seen[row.Key()] = true
					}
					if len(rows) != total || len(seen) != total {
						return fmt.Sprintf("gives %d rows, %d distinct, expected %d", len(rows), len(seen), total)
					}
					return ""
				})
			})
		}
	})
}

// C23: the failing part is at every position of long lists
func sizesC23(r *mc.Run) {
	var cases []sizeCase
	div := ref.Bin{Op: "/", A: lit(1), B: ref.Param("z")}
	for _, n := range sizes(r, 16, 66)[1:] {
		for _, k := range few(n, 7, 8, 15, 16, 31, 32) {
			var l ref.ListX
			m := ref.MapX{}
			cs := ref.Case{Else: lit(0)}
			var sum, and, or ref.Expr
			for i := 0; i < n; i++ {
				x := ref.Expr(lit(i))
				t, f := ref.Expr(lit(true)), ref.Expr(lit(false))
				if i == k {
					x = div
					t = cmp(div, "=", lit(1))
					f = cmp(div, "=", lit(2))
				}
				l = append(l, x)
				m = append(m, ref.KV{K: fmt.Sprint("k", i), E: x})
				cs.When, cs.Then = append(cs.When, f), append(cs.Then, lit(i))
				if i == 0 {
					sum, and, or = x, t, f
				} else {
					sum, and, or = ref.Bin{Op: "+", A: sum, B: x}, ref.Bin{Op: "AND", A: and, B: t}, ref.Bin{Op: "OR", A: or, B: f}
				}
			}
			envs := []map[string]ref.V{{"z": 1}, {"z": 0}, {"z": 1}, {"z": "x"}, {"z": nil}}
			for _, x := range []struct {
				name string
				e    ref.Expr
			}{{"list", l}, {"map", m}, {"CASE", cs}, {"sum", sum}, {"AND", and}, {"OR", or}, {"index of a list", ref.Index{E: l, I: lit(0)}}} {
				cases = append(cases, sizeCase{fmt.Sprintf("%s with %d parts, number %d fails", x.name, n, k), x.e, envs})
			}
		}
	}
	runSizeCases(r, cases)
	// The row that fails
	failK := ref.Bin{Op: "/", A: lit(10), B: ref.Bin{Op: "-", A: prop("n", "k"), B: ref.Param("k")}}
	rd := reads1(nodePart(nP("n")))
	var qs []ref.Query
	qs = append(qs, ref.Q(rd, nil, retItems(failK)), ref.Q(rd, nil, retItems(prop("n", "k"), failK)), ref.Q([]ref.Match{{Parts: []ref.Part{nodePart(nP("n"))}, Where: cmp(failK, ">", lit(0))}}, nil, varsReturn(nodePart(nP("n")))))
	d := retItems(failK)
	d.Distinct = true
	o := retItems(prop("n", "k"))
	o.Order = []ref.SortItem{{E: failK}}
	qs = append(qs, ref.Q(rd, nil, d), ref.Q(rd, nil, o), ref.Q(rd, []ref.Update{ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "n", Key: "z", E: failK}}}}, nil), ref.Q(rd, []ref.Update{ref.Create{Parts: []ref.Part{nodePart(ref.NodePat{Props: mapX("z", failK)})}}}, nil), ref.Q(rd, []ref.Update{ref.Merge{Part: nodePart(ref.NodePat{Labels: []string{"Q"}, Props: mapX("z", failK)})}}, nil))
	ns := sizes(r, 20, 33)
	for _, k := range []int{-1, 0, 1, 5, 12, 13, 19, 31} {
		eachSize(r, ns, sizeGraph, qs, qopts{params: map[string]ref.V{"k": k}})
	}
}

// C08: the same parsed query evaluated many times
func sizesC08(r *mc.Run) {
	rd := reads1(nodePart(ref.NodePat{Var: "n", Props: mapX("k", ref.Param("k"))}))
	qs := []ref.Query{
		ref.Q(rd, nil, retItems(prop("n", "p"), ref.Param("k"))),
		ref.Q(reads1(nodePart(nP("n"))), nil, retItems(ref.Bin{Op: "+", A: prop("n", "k"), B: ref.Param("k")}, ref.Bin{Op: "IN", A: prop("n", "k"), B: ref.ListX{ref.Param("k"), lit(1)}})),
		ref.Q(nil, nil, retItems(ref.Case{Test: ref.Param("k"), When: []ref.Expr{lit(1), lit(2)}, Then: []ref.Expr{lit("a"), ref.Param("k")}, Else: ref.ListX{ref.Param("k"), lit(1)}}, ref.Bin{Op: "+", A: lit(1), B: lit(2)}, ref.ListX{lit(1), lit(2)})),
		ref.Q(rd, []ref.Update{ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "n", Key: "p", E: ref.Bin{Op: "+", A: prop("n", "p"), B: ref.Param("k")}}}}}, nil),
		ref.Q(nil, []ref.Update{ref.Create{Parts: []ref.Part{nodePart(ref.NodePat{Labels: []string{"N"}, Props: mapX("k", ref.Param("k"), "l", lit(ref.List{1, 2}))})}}}, nil),
		ref.Q(nil, []ref.Update{ref.Merge{Part: nodePart(ref.NodePat{Var: "m", Labels: []string{"M"}, Props: mapX("k", ref.Param("k"))})}}, retItems(prop("m", "k"))),
		ref.Q(nil, nil, retItems(ref.Bin{Op: "/", A: lit(6), B: ref.Param("k")})),
		{Singles: []ref.Single{{Ret: retItems(ref.Param("k"))}, {Reads: rd, Ret: retItems(prop("n", "p"))}}, All: []bool{false}},
	}
	total := 70
	if r.Thorough {
		total = 600
	}
	r.Note("cases_of_growing_size", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, i int) {
		q := qs[i]
		w.Case(fmt.Sprintf("%d evaluations of %s", total, q.Str()), func() string {
			p, err := sut.SafeParse(q.Str())
			if err != nil {
				return err.Error()
			}
			g := sizeGraph(4)
			world := sut.Build(g, sut.BuildOpts{})
			for k := 0; k < total; k++ {
				params := map[string]ref.V{"k": k % 5}
				if k%11 == 10 {
					params = map[string]ref.V{}
				}
				ng, exp, s := step(w, world, g, p, q, world.Ctx(nil, params), qopts{params: params, exact: true})
				if s != "" {
					return fmt.Sprintf("evaluation %d%s %s", k+1, envText(params), clipText2(s))
				}
				if exp != nil {
					w.R.State(fmt.Sprint(i, k) + rowsText(exp.Rows, false))
				}
				g = ng
			}
			return ""
		})
	})
}
