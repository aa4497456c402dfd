package checks

import (
	"fmt"

	"verif/harness/mc"
	"verif/harness/ref"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C12", Level: "model_checking",
		Bounds: "all unions of 2 and 3 (thorough 4) queries of the alphabets, with UNION or UNION ALL at every position, on all sequences of up to 3 nodes of the listed kinds and all relationship graphs of 2 nodes" + sizeBounds + objectBounds,
		Assume: []string{"the queries have the same columns", "the rows of a query without ORDER BY are in the order it gives on its own"},
		Fn:     runC12,
	})
}

func runC12(r *mc.Run) {
	sizesC12(r)
	item := func(e ref.Expr, as string) ref.Item { return ref.Item{E: e, As: as} }
	ret := func(its ...ref.Item) *ref.Return { return &ref.Return{Items: its} }
	mt := func(ps ...ref.Part) []ref.Match { return []ref.Match{{Parts: ps}} }
	single := func(reads []ref.Match, rt *ref.Return) ref.Single { return ref.Single{Reads: reads, Ret: rt} }
	limited := ret(item(prop("n", "p"), "x"))
	limited.Order, limited.Limit = []ref.SortItem{{E: ref.Var("x"), Desc: true}}, lit(2)
	dist := ret(item(prop("n", "q"), "x"))
	dist.Distinct = true
	one := []ref.Single{
		single(mt(nodePart(nP("n", "A"))), ret(item(prop("n", "p"), "x"))),
		single(mt(nodePart(nP("n", "B"))), ret(item(prop("n", "p"), "x"))),
		single(nil, ret(item(lit(1), "x"))),
		single(nil, ret(item(lit(nil), "x"))),
		single(mt(nodePart(nP("n"))), limited),
		single(mt(nodePart(nP("n"))), dist),
		single(mt(nodePart(nP("x"))), ret(item(ref.Var("x"), "x"))),
		single(mt(nodePart(nP("n", "C"))), ret(item(ref.Var("n"), "x"))),
		single(nil, ret(item(ref.ListX{lit(1), lit(nil)}, "x"))),
		single(mt(part(nP("n"), ref.RelPat{Var: "e", Dir: ref.Both}, nP("x"))), ret(item(ref.Var("x"), "x"))),
		single(mt(part(nP("n"), ref.RelPat{Var: "x"}, nP("m"))), ret(item(ref.Var("x"), "x"))),
		single([]ref.Match{{Parts: []ref.Part{nodePart(nP("n"))}, Where: cmp(prop("n", "p"), "=", lit(1))}}, ret(item(ref.Call{F: "labels", Args: []ref.Expr{ref.Var("n")}}, "x"))),
	}
	two := []ref.Single{
		single(mt(nodePart(nP("n", "A"))), ret(item(prop("n", "p"), "x"), item(prop("n", "q"), "y"))),
		single(mt(nodePart(nP("x"))), ret(item(prop("x", "q"), "x"), item(prop("x", "p"), "y"))),
		single(nil, ret(item(lit(1), "x"), item(lit(nil), "y"))),
		single(nil, ret(item(lit(nil), "x"), item(lit(1), "y"))),
		single(mt(nodePart(nP("x")), nodePart(nP("y"))), ret(item(ref.Var("x"), "x"), item(ref.Var("y"), "y"))),
		single(mt(nodePart(nP("x")), nodePart(nP("y"))), ret(item(ref.Var("y"), "x"), item(ref.Var("x"), "y"))),
		single(mt(part(nP("x"), ref.RelPat{}, nP("y"))), &ref.Return{Star: true}),
	}
	kinds := []nodeKind{{labels: []string{"A"}, props: ref.Map{"p": 1}}, {labels: []string{"B"}, props: ref.Map{"p": 1, "q": 1}}, {labels: []string{"A", "B"}, props: ref.Map{"p": 2}}, {labels: []string{"B"}}, {labels: []string{"A"}, props: ref.Map{"q": 1}}}
	gs := append(nodeSequences(0, 2, kinds), nodeSequences(3, 3, kinds[:3])...)
	gs = append(gs, graphsOf(1, 2, kinds[:2], 2, []edgeKind{{typ: "X"}})...)
	r.Note("graphs", int64(len(gs)))
	type job struct {
		parts []ref.Single
		all   []bool
	}
	var jobs []job
	gen := func(alpha []ref.Single, n int) {
		idx := make([]int, n)
		for {
			for m := 0; m < 1<<(n-1); m++ {
				j := job{}
				for i, k := range idx {
					j.parts = append(j.parts, alpha[k])
					if i > 0 {
						j.all = append(j.all, m>>(i-1)&1 == 1)
					}
				}
				jobs = append(jobs, j)
			}
			i := n - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
	gen(one, 2)
	gen(two, 2)
	if r.Thorough {
		gen(one, 3)
		gen(two, 3)
		gen([]ref.Single{one[0], one[1], one[3], one[6]}, 4)
	} else {
		gen([]ref.Single{one[0], one[1], one[2], one[3], one[4], one[6], one[9]}, 3)
		gen([]ref.Single{two[0], two[1], two[2], two[4]}, 3)
		gen([]ref.Single{one[0], one[1], one[3]}, 4)
	}
	r.Note("unions", int64(len(jobs)))
	family := "all sequences of up to 3 nodes and graphs of 2 nodes and 2 relationships"
	rowsOf := func(w *mc.W, b *baseWorld, s ref.Single) ([]ref.Row, string) {
		text := s.Str()
		if r, ok := b.rows[text]; ok {
			return r, ""
		}
		p, err := w.Cache.Parse(text)
		if err != nil {
			return nil, err.Error()
		}
		out := b.world.Eval(p, b.world.Ctx(nil, nil))
		if out.Err != nil || out.Panic != "" {
			return nil, text + " gives " + out.String()
		}
		exp := ref.Run(b.g, ref.Query{Singles: []ref.Single{s}}, ref.Opts{})
		if s.Ret.Limit == nil && rowsText(exp.Rows, false) != rowsText(out.Rows, false) {
			return nil, text + " gives " + out.String() + ", expected " + rowsText(exp.Rows, false)
		}
		b.rows[text] = out.Rows
		return out.Rows, ""
	}
	r.Par(len(jobs), func(w *mc.W, i int) {
		j := jobs[i]
		q := ref.Query{Singles: j.parts, All: j.all}
		text := q.Str()
		w.Case(text+" on "+family, func() string {
			p, err := w.Cache.Parse(text)
			if err != nil {
				return "does not parse: " + err.Error()
			}
			defer w.Cache.Forget(text)
			for _, b := range worlds(w, family, gs) {
				w.Tick()
				var want []ref.Row
				for k, s := range j.parts {
					rows, msg := rowsOf(w, b, s)
					if msg != "" {
						return "on " + b.g.String() + ": " + msg
					}
					want = append(want, rows...)
					if k > 0 && !j.all[k-1] {
						want = ref.Distinct(want)
					}
				}
				wt := rowsText(want, true)
				w.R.Trans(1)
				w.R.State(b.g.Text() + wt)
				for round := 0; round < 2; round++ {
					out := b.world.Eval(p, b.world.Ctx(nil, nil))
					w.R.Trace(1)
					if out.Err != nil || out.Panic != "" || out.Bad != "" {
						return "on " + b.g.String() + " gives " + out.String() + ", expected " + wt
					}
					if got := rowsText(out.Rows, true); got != wt {
						return fmt.Sprintf("on %s gives\n    %s\n  expected\n    %s", b.g, got, wt)
					}
				}
			}
			w.R.Sample(func() string { return text })
			return ""
		})
	})
	// A variable of one query is unknown in the others
	un := ref.Var("n")
	unknown := []ref.Single{
		single(nil, ret(item(un, "x"))),
		single(nil, ret(item(prop("n", "p"), "x"))),
		single([]ref.Match{{Parts: []ref.Part{nodePart(nP("k", "A"))}, Where: cmp(prop("n", "p"), "=", prop("k", "p"))}}, ret(item(prop("k", "p"), "x"))),
		single(nil, ret(item(ref.Var("x"), "x"))),
	}
	ug := nodeSequences(1, 2, kinds[:3])
	// Queries that update
	upds := []ref.Single{
		{Upds: []ref.Update{ref.Create{Parts: []ref.Part{nodePart(ref.NodePat{Var: "n", Labels: []string{"A"}, Props: ref.MapX{{K: "p", E: lit(7)}}})}}}, Ret: ret(item(prop("n", "p"), "x"))},
		{Upds: []ref.Update{ref.Merge{Part: nodePart(ref.NodePat{Var: "n", Labels: []string{"A"}, Props: ref.MapX{{K: "p", E: lit(1)}}})}}, Ret: ret(item(prop("n", "p"), "x"))},
		{Reads: mt(nodePart(nP("n", "A"))), Upds: []ref.Update{ref.Set{Items: []ref.SetItem{{Kind: "prop", Var: "n", Key: "p", E: lit(5)}}}}, Ret: ret(item(prop("n", "p"), "x"))},
	}
	var uq []ref.Query
	for _, a := range []ref.Single{one[0], one[6], one[5]} {
		for _, b := range unknown {
			for _, all := range []bool{false, true} {
				uq = append(uq, ref.Query{Singles: []ref.Single{a, b}, All: []bool{all}})
			}
		}
	}
	for _, a := range append(upds, one[0], one[1], one[2], unknown[1]) {
		for _, b := range append(upds, one[0], one[1]) {
			for _, all := range []bool{false, true} {
				uq = append(uq, ref.Query{Singles: []ref.Single{a, b}, All: []bool{all}})
				for _, c := range []ref.Single{one[0], upds[0]} {
					uq = append(uq, ref.Query{Singles: []ref.Single{a, b, c}, All: []bool{all, true}})
				}
			}
		}
	}
	r.Note("unions", int64(len(uq)))
	r.Par(len(uq), func(w *mc.W, i int) {
		runOnAll(w, "all sequences of 1..2 nodes", ug, uq[i], one1, qopts{})
	})
}
