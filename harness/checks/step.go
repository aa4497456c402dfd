package checks

import (
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// step evaluates a query on a world whose contents are g, compares the
// outcome with the reference, and gives the contents after it
func step(w *mc.W, world *sut.World, g *ref.Graph, p oc.Evaluatable, q ref.Query, ctx *oc.EvalContext, o qopts) (*ref.Graph, *ref.Result, string) {
	snap, exp, _, s := stepOut(w, world, g, p, q, ctx, o)
	return snap, exp, s
}

func stepOut(w *mc.W, world *sut.World, g *ref.Graph, p oc.Evaluatable, q ref.Query, ctx *oc.EvalContext, o qopts) (*ref.Graph, *ref.Result, sut.Outcome, string) {
	opts := ref.Opts{Vars: o.vars, Params: o.params, Filter: o.filter}
	fn, fe := world.Fixed()
	g.SetNext(fn, fe)
	exp := ref.Run(g, q, opts)
	updates := hasUpdates(q)
	wantC := ""
	if exp.St == ref.OK {
		if updates {
			wantC = ref.Canon(exp.G, exp.Rows, o.ordered, fn, fe)
		} else {
			wantC = rowsText(exp.Rows, o.ordered)
		}
	}
	w.R.Trans(1)
	out := world.Eval(p, ctx)
	w.R.Trace(1)
	if out.Panic != "" || out.Bad != "" {
		return nil, nil, out, "gives " + out.String()
	}
	snap, err := world.Snapshot()
	if err != nil {
		return nil, nil, out, "leaves an inconsistent graph: " + err.Error()
	}
	if s := compareOutcome(g, q, o, exp, wantC, out, snap, fn, fe, opts, updates, w); s != "" {
		return nil, nil, out, s
	}
	return snap, &exp, out, ""
}
