package checks

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C07", Level: "model_checking",
		Bounds: "operands of 55 kinds and boundary values (every supported value type); all operators, functions with every number of arguments and unsupported expressions with one to three such operands, and pairs of nested unary constructs, as parameters and as variables; all combinations of 25 reading, 55 updating and 10 returning clauses, and pairs of updating clauses, where a variable and a parameter have each of the kinds, on 4 graphs; after every evaluation the graph and the context are used again",
		Assume: []string{"range() is not called with bounds that need more memory than there is", "functions of the embedding program are not part of this check (C23)"},
		Fn:     runC07,
	})
}

// operand is a value of some kind, made for a world
type operand struct {
	name string
	mk   func(w *sut.World) interface{}
	// big operands are not given to range()
	big bool
}

func pathOf(es ...*lpg.Edge) *lpg.Path {
	p := &lpg.Path{}
	for _, e := range es {
		p.Append(lpg.PathElement{Edge: e})
	}
	return p
}

func totalGraphs() []*ref.Graph {
	var out []*ref.Graph
	out = append(out, ref.NewGraph())
	g := ref.NewGraph()
	a := g.AddNode([]string{"A"}, ref.Map{"p": 1, "l": ref.List{1, "x"}})
	g.AddEdge(a, a, "X", ref.Map{"p": 1})
	out = append(out, g)
	g = ref.NewGraph()
	a = g.AddNode([]string{"A"}, ref.Map{"p": 1, "m": ref.Map{"a": 1}})
	b := g.AddNode([]string{"B", "C"}, ref.Map{"p": "x"})
	g.AddNode(nil, nil)
	g.AddEdge(a, b, "X", ref.Map{"p": 1})
	g.AddEdge(b, a, "Y", nil)
	g.AddEdge(a, b, "X", nil)
	out = append(out, g)
	return out
}

func operands() []operand {
	var out []operand
	add := func(name string, mk func(w *sut.World) interface{}) {
		out = append(out, operand{name: name, mk: mk})
	}
	val := func(name string, v interface{}) {
		// SET x.p = 1 changes the map of the variable x
		add(name, func(*sut.World) interface{} { return ownCopy(v) })
	}
	l := func(v ...interface{}) []oc.Value {
		r := make([]oc.Value, 0)
		for _, x := range v {
			r = append(r, oc.RValue{Value: x})
		}
		return r
	}
	val("null", nil)
	val("true", true)
	val("false", false)
	val("0", 0)
	val("1", 1)
	val("-1", -1)
	val("3", 3)
	val("maxint", math.MaxInt64)
	val("minint", math.MinInt64)
	val("0.0", 0.0)
	val("1.5", 1.5)
	val("-0.5", -0.5)
	val("1e308", 1e308)
	val("NaN", math.NaN())
	val("+Inf", math.Inf(1))
	val("''", "")
	val("'p'", "p")
	val("'1'", "1")
	val("'é\xff'", "é\xff")
	val("'2020-02-29'", "2020-02-29")
	val("[]", l())
	val("[1]", l(1))
	val("[null]", l(nil))
	val("['p',1.5]", l("p", 1.5))
	val("[[],[1]]", l(l(), l(1)))
	val("[{}]", l(map[string]oc.Value{}))
	val("nil list", []oc.Value(nil))
	val("{}", map[string]oc.Value{})
	val("{p:1}", map[string]oc.Value{"p": oc.RValue{Value: 1}})
	val("{p:null}", map[string]oc.Value{"p": oc.RValue{}})
	val("{p:{a:1}}", map[string]oc.Value{"p": oc.RValue{Value: map[string]oc.Value{"a": oc.RValue{Value: 1}}}})
	val("nil map", map[string]oc.Value(nil))
	tm := utc(2020, 2, 29, 23, 59, 59, 999999999)
	val("date", oc.NewDate(tm))
	val("time", oc.NewLocalTime(tm))
	val("datetime", oc.NewLocalDateTime(tm))
	val("zero date", oc.Date{})
	val("zero datetime", oc.LocalDateTime{})
	val("zero time", oc.LocalTime{})
	val("duration", oc.Duration{Months: 1, Days: -1, Seconds: 1, Nanos: 1})
	val("zero duration", oc.Duration{})
	val("large duration", oc.Duration{Months: math.MaxInt64, Days: math.MinInt64, Seconds: math.MaxInt64, Nanos: math.MaxInt64})
	val("no labels", lpg.NewStringSet())
	val("nil labels", lpg.StringSet{})
	val("labels A", lpg.NewStringSet("A", "B"))
	val("result set", *oc.NewResultSet())
	add("result set with a row", func(*sut.World) interface{} {
		r := oc.NewResultSet()
		r.Append(map[string]oc.Value{"a": oc.RValue{Value: 1}})
		return *r
	})
	node := func(w *sut.World, k int) interface{} {
		for itr := w.G.GetNodes(); itr.Next(); {
			if k == 0 {
				return itr.Node()
			}
			k--
		}
		return nil
	}
	edge := func(w *sut.World, k int) *lpg.Edge {
		for itr := w.G.GetEdges(); itr.Next(); {
			if k == 0 {
				return itr.Edge()
			}
			k--
		}
		return nil
	}
	add("node", func(w *sut.World) interface{} { return node(w, 0) })
	add("node 2", func(w *sut.World) interface{} { return node(w, 1) })
	add("list of a node", func(w *sut.World) interface{} { return l(node(w, 0)) })
	add("map with a node", func(w *sut.World) interface{} {
		return map[string]oc.Value{"p": oc.RValue{Value: node(w, 0)}}
	})
	add("relationship", func(w *sut.World) interface{} {
		if e := edge(w, 0); e != nil {
			return pathOf(e)
		}
		return nil
	})
	add("list of a relationship", func(w *sut.World) interface{} {
		if e := edge(w, 0); e != nil {
			return l(pathOf(e))
		}
		return nil
	})
	add("path of 2", func(w *sut.World) interface{} {
		for i := 0; edge(w, i) != nil; i++ {
			for j := 0; edge(w, j) != nil; j++ {
				if i != j && edge(w, i).GetTo() == edge(w, j).GetFrom() {
					return pathOf(edge(w, i), edge(w, j))
				}
			}
		}
		return nil
	})
	add("empty path", func(w *sut.World) interface{} { return &lpg.Path{} })
	add("path of a node", func(w *sut.World) interface{} {
		if n, ok := node(w, 0).(*lpg.Node); ok {
			return lpg.PathFromNode(n)
		}
		return nil
	})
	add("edge", func(w *sut.World) interface{} {
		if e := edge(w, 0); e != nil {
			return e
		}
		return nil
	})
	add("path element", func(w *sut.World) interface{} {
		if e := edge(w, 0); e != nil {
			return lpg.PathElement{Edge: e}
		}
		return nil
	})
	add("no edges", func(w *sut.World) interface{} { return []*lpg.Edge{} })
	add("nil edges", func(w *sut.World) interface{} { return []*lpg.Edge(nil) })
	add("edges", func(w *sut.World) interface{} {
		if e := edge(w, 0); e != nil {
			return []*lpg.Edge{e, e}
		}
		return nil
	})
	return out
}

// ownCopy copies maps
func ownCopy(v interface{}) interface{} {
	m, ok := v.(map[string]oc.Value)
	if !ok || m == nil {
		return v
	}
	ret := make(map[string]oc.Value)
	for k, x := range m {
		ret[k] = oc.RValue{Value: ownCopy(x.Get())}
	}
	return ret
}

func utc(y, m, d, h, mi, s, n int) time.Time {
	return time.Date(y, time.Month(m), d, h, mi, s, n, time.UTC)
}

// totalExprs gives expressions over the operands A, B, C by number of
// operands. Supported is false for those that must be errors.
func totalExprs() (byN [4][]string, unsupported []string) {
	one := []string{"A", "-A", "+A", "NOT A", "A IS NULL", "A IS NOT NULL", "A.p", "A.p.a", "A:L", "A:L.p", "[A]", "{p: A}", "A[0]", "A[-1]", "A[1..]", "A[..1]", "A[..]", "[1,2][A]", "[1,2][A..]", "[1,2][..A]",
		"CASE A WHEN 1 THEN 2 END", "CASE WHEN A THEN 1 ELSE 2 END", "CASE 1 WHEN A THEN 1 END", "(A)", "A IN [1, 'p', null]", "1 IN A", "'p' IN A", "A STARTS WITH 'p'", "'p' ENDS WITH A", "A CONTAINS ''",
		"A + 1", "1 + A", "A - 1", "A * 2", "2 * A", "A / 0", "0 / A", "A % 2", "A ^ 2", "A + 'p'", "A + [1]", "A = 1", "A = 'p'", "1 < A < 2", "A = null", "A AND true", "A OR false", "A XOR true", "true AND A", "false OR A", "- - A", "NOT NOT A", "[[A]][0][0]"}
	byN[1] = one
	ops := []string{"+", "-", "*", "/", "%", "^", "=", "<>", "<", "<=", ">", ">=", "AND", "OR", "XOR", "IN", "STARTS WITH", "ENDS WITH", "CONTAINS"}
	for _, o := range ops {
		byN[2] = append(byN[2], "A "+o+" B")
	}
	byN[2] = append(byN[2], "A[B]", "A[B..]", "A[..B]", "CASE A WHEN B THEN 1 ELSE 2 END", "[A, B]", "{a: A, b: B}", "A - B - A", "A * B + A", "A < B < A", "[A] + B", "[A, B] + [B]", "A IN [B]", "[A] = [B]", "{p: A} = {p: B}", "CASE WHEN A = B THEN A ELSE B END", "A.p + B.p")
	byN[3] = []string{"A[B..C]", "A + B + C", "A - B * C", "A AND B OR C", "A XOR B XOR C", "CASE A WHEN B THEN C END", "A < B <= C", "[A, B, C]", "A IN [B, C]"}
	for _, f := range []string{"range", "labels", "timestamp", "type", "size", "left", "right", "split", "trim", "ltrim", "rtrim", "substring", "print", "date", "toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull", "nosuch", "no.such"} {
		byN[0] = append(byN[0], f+"()")
		byN[1] = append(byN[1], f+"(A)")
		byN[2] = append(byN[2], f+"(A, B)")
		byN[3] = append(byN[3], f+"(A, B, C)")
		byN[3] = append(byN[3], f+"(A, B, C, A)")
	}
	unsupported = []string{"[x IN A | x]", "[x IN A WHERE x | x]", "[x IN A]", "[(A)-->(m) | m]", "[(n)-->() WHERE A | 1]", "ALL(x IN A WHERE x)", "ANY(x IN A WHERE x)", "NONE(x IN A WHERE x)", "SINGLE(x IN A WHERE x)", "FILTER(x IN A WHERE x)", "EXTRACT(x IN A | x)", "count(*)", "(n)-->()", "(A)-[:X]->(m)", "EXISTS((n)-->())"}
	return
}

func fill(t string, vars bool) string {
	b := strings.Builder{}
	for i := 0; i < len(t); i++ {
		c := t[i]
		alone := (i == 0 || !isWordChar(rune(t[i-1])) && t[i-1] != ':') && (i+1 == len(t) || !isWordChar(rune(t[i+1])))
		if alone && c >= 'A' && c <= 'C' {
			if !vars {
				b.WriteByte('$')
			}
			b.WriteByte(c + 'a' - 'A')
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// totalWorld has the values of the operands
type totalWorld struct {
	w    *sut.World
	vals []oc.Value
}

func newTotalWorld(g *ref.Graph, ops []operand) *totalWorld {
	t := &totalWorld{w: sut.Build(g, sut.BuildOpts{})}
	for _, o := range ops {
		t.vals = append(t.vals, oc.RValue{Value: o.mk(t.w)})
	}
	return t
}

// evalTotal evaluates and describes an outcome that is neither a result
// nor an error
func evalTotal(w *sut.World, q oc.Evaluatable, ctx *oc.EvalContext) (rs *oc.ResultSet, err error, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panics: ", r)
		}
	}()
	v, err := q.Evaluate(ctx)
	if err != nil {
		_ = err.Error()
		return nil, err, ""
	}
	if v == nil {
		return nil, nil, "gives neither a result nor an error"
	}
	res, ok := v.Get().(oc.ResultSet)
	if !ok {
		return nil, nil, fmt.Sprintf("gives %T", v.Get())
	}
	// Every value can be read
	for _, row := range res.Rows {
		for k, x := range row {
			if x == nil {
				return nil, nil, "gives a row without a value for " + k
			}
			x.Get()
			x.IsConst()
			if _, err := x.Evaluate(ctx); err != nil {
				return nil, nil, "gives a value that is an error"
			}
		}
	}
	return &res, nil, ""
}

func runC07(r *mc.Run) {
	// print() writes to the standard output
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		defer func(f *os.File) { os.Stdout = f }(os.Stdout)
		os.Stdout = null
	}
	r.Seq(func(w *mc.W) {
		for _, q := range cyclicQueries {
			w.Case("node that is its own property: "+q, func() string {
				// A stack overflow ends the process
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(os.Environ(), "MC_CYCLIC="+q)
				out, err := cmd.CombinedOutput()
				if err != nil {
					text := string(out)
					if k := strings.Index(text, "\n\n"); k > 0 {
						text = text[:k]
					}
					return fmt.Sprintf("crashes the process: %v %s", err, text)
				}
				return ""
			})
		}
	})
	totalExpressions(r)
	totalNested(r)
	totalClauses(r)
}

// cyclicQueries are evaluated in a process of their own
var cyclicQueries = []string{
	"MATCH (n) SET n.p = n RETURN n.p",
	"MATCH (n) SET n.p = [n] SET n.q = n.p RETURN n.p, n.q",
	"MATCH (n) SET n.p = n WITH n RETURN n",
	"MATCH (n) SET n.p = n SET n.q = n.p = n",
	"MATCH (n) SET n.p = n SET n.q = -n.p",
	"MATCH (n) SET n.p = n RETURN n ORDER BY n.p",
	"MATCH (n) SET n.p = {m: n} RETURN DISTINCT n.p",
	"MATCH (n) SET n.p = n CREATE (m {q: n.p}) RETURN n",
	"MATCH (n) SET n.p = n MERGE (m {q: n.p}) RETURN n",
	"MATCH (n) SET n.p = n MERGE (m {p: 1})",
	"MATCH (n) SET n.p = n RETURN print(n)",
	"MATCH (n) SET n.p = [n] RETURN n, print(1)",
	"MATCH (n) SET n.p = [n] RETURN print(n)",
	"MATCH (n) SET n.p = {m: n} RETURN print(n.p)",
	"MATCH (n)-[e]->(m) SET n.p = e RETURN print(e)",
	"MATCH (n) SET n.p = [n] MERGE (m {p: 1})",
	"MATCH (n) SET n.p = {m: n} MERGE (m {p: n.p})",
	"MATCH (n)-[e]->(m) SET n.p = e MERGE (k {p: 'x'})",
}

func init() {
	q := os.Getenv("MC_CYCLIC")
	if q == "" {
		return
	}
	debug.SetMaxStack(1 << 20)
	g := ref.NewGraph()
	a := g.AddNode([]string{"A"}, ref.Map{"p": 1})
	g.AddEdge(a, a, "X", nil)
	w := sut.Build(g, sut.BuildOpts{})
	e, err := sut.SafeParse(q)
	if err != nil {
		os.Exit(0)
	}
	_, _, bad := evalTotal(w, e, oc.NewEvalContext(w.G))
	if bad != "" {
		fmt.Println(bad)
		os.Exit(1)
	}
	os.Exit(0)
}

// cyclic tells if the query may compare a node that contains itself: that
// overflows the stack (known finding)
func cyclic(text, operand string) bool {
	if !strings.Contains(text, "MERGE") || !strings.Contains(text, "SET") {
		return false
	}
	if !strings.Contains(text, "{") && !strings.Contains(text, "$a)") {
		return false
	}
	for _, s := range []string{"= n", "= e", "l = ["} {
		if strings.Contains(text, s) {
			return true
		}
	}
	for _, s := range []string{"node", "relationship", "path", "edge"} {
		if strings.Contains(operand, s) {
			return true
		}
	}
	return false
}

func totalExpressions(r *mc.Run) {
	ops := operands()
	byN, unsupported := totalExprs()
	type item struct {
		t      string
		n      int
		vars   bool
		reject bool
	}
	var items []item
	for n, ts := range byN {
		for _, t := range ts {
			items = append(items, item{t, n, false, false}, item{t, n, true, false})
		}
	}
	for _, t := range unsupported {
		items = append(items, item{t, 1, false, true}, item{t, 1, true, true})
	}
	g := totalGraphs()[2]
	// Three operands: a part of the kinds
	var few []int
	for i, o := range ops {
		switch o.name {
		case "null", "true", "0", "1", "-1", "maxint", "minint", "1.5", "NaN", "''", "'p'", "[]", "[1]", "[null]", "{p:1}", "date", "datetime", "duration", "node", "relationship", "labels A", "empty path", "edges":
			few = append(few, i)
		}
	}
	all := make([]int, len(ops))
	for i := range all {
		all[i] = i
	}
	r.Note("operand_kinds", int64(len(ops)))
	r.Note("expressions", int64(len(items)))
	r.Par(len(items), func(w *mc.W, i int) {
		it := items[i]
		text := "RETURN " + fill(it.t, it.vars)
		q, err := w.Cache.Parse(text)
		if err != nil {
			if isPanic(err) {
				w.Fail(text, "does not parse: "+err.Error())
			}
			return
		}
		dom := all
		if it.n == 3 && !r.Thorough {
			dom = few
		}
		t, _ := w.Data["total"].(*totalWorld)
		if t == nil {
			t = newTotalWorld(g, ops)
			w.Data["total"] = t
		}
		names := []string{"a", "b", "c"}
		idx := make([]int, it.n)
		for {
			if r.Stopped() {
				return
			}
			key := text
			skip := false
			for k := 0; k < it.n; k++ {
				o := ops[dom[idx[k]]]
				key += " " + names[k] + "=" + o.name
				skip = skip || strings.HasPrefix(it.t, "range") && (o.name == "maxint" || o.name == "minint")
			}
			if !skip {
				w.Case(key, func() string {
					ctx := oc.NewEvalContext(t.w.G)
					for k := 0; k < it.n; k++ {
						v := t.vals[dom[idx[k]]]
						if it.vars {
							ctx.SetVar(names[k], v)
						} else {
							ctx.SetParameter("$"+names[k], v)
						}
					}
					rs, err, bad := evalTotal(t.w, q, ctx)
					r.Trans(1)
					r.Trace(1)
					if bad != "" {
						return bad
					}
					if err != nil {
						r.ErrOutcome()
						r.State(text + err.Error())
						return ""
					}
					if it.reject {
						return "gives a result although the construct is not supported"
					}
					if len(rs.Rows) != 1 {
						return fmt.Sprintf("gives %d rows", len(rs.Rows))
					}
					r.State(text + fmt.Sprintf("%T", rs.Rows[0]["1"].Get()))
					return ""
				})
			}
			k := 0
			for ; k < it.n; k++ {
				idx[k]++
				if idx[k] < len(dom) {
					break
				}
				idx[k] = 0
			}
			if k == it.n {
				break
			}
		}
		// The graph is as it was
		if snap, err := t.w.Snapshot(); err != nil || snap.String() != g.String() {
			w.Fail(text, fmt.Sprint("changes the graph to ", snap, " ", err))
		}
	})
}

// totalNested nests the unary constructs in each other
func totalNested(r *mc.Run) {
	ops := operands()
	byN, _ := totalExprs()
	g := totalGraphs()[2]
	one := byN[1]
	r.Par(len(one)*len(one), func(w *mc.W, i int) {
		outer, inner := one[i/len(one)], one[i%len(one)]
		body := fill(inner, false)
		text := "RETURN "
		for k := 0; k < len(outer); k++ {
			alone := outer[k] == 'A' && (k == 0 || !isWordChar(rune(outer[k-1])) && outer[k-1] != ':') && (k+1 == len(outer) || !isWordChar(rune(outer[k+1])))
			if alone {
				text += "(" + body + ")"
			} else {
				text += outer[k : k+1]
			}
		}
		q, err := sut.SafeParse(text)
		if err != nil {
			if isPanic(err) {
				w.Fail(text, "does not parse: "+err.Error())
			}
			return
		}
		t, _ := w.Data["total"].(*totalWorld)
		if t == nil {
			t = newTotalWorld(g, ops)
			w.Data["total"] = t
		}
		w.Case(text+" for all kinds of operands", func() string {
			for k, v := range t.vals {
				if strings.Contains(text, "range") && (ops[k].name == "maxint" || ops[k].name == "minint") {
					continue
				}
				ctx := oc.NewEvalContext(t.w.G)
				ctx.SetParameter("$a", v)
				_, err, bad := evalTotal(t.w, q, ctx)
				if bad != "" {
					return "a=" + ops[k].name + " " + bad
				}
				if err != nil {
					r.ErrOutcome()
				}
			}
			r.Trans(int64(len(t.vals)))
			r.Trace(int64(len(t.vals)))
			return ""
		})
	})
}

func totalClauseTexts() (reads, upds, rets []string) {
	reads = []string{"", "MATCH (n)", "MATCH (n:A)", "MATCH (x)", "MATCH (x:A {p: 1})", "MATCH (n)-[x]->(m)", "MATCH (n)<-[x]-(m)", "MATCH (n)-[x*1..2]->(m)", "MATCH (x)-[e]->(m)", "MATCH (n)-[e]-(x)", "MATCH (x)-[x]->(x)", "MATCH (n)-[e*]->(x)", "MATCH p = (n)-[e]->(m)", "MATCH x = (n)-->(m)",
		"OPTIONAL MATCH (n:None)", "OPTIONAL MATCH (n)-[x]->(m)", "OPTIONAL MATCH (x)-[e]->(n:None)", "MATCH (n {p: $a})", "MATCH (n)-[e {p: $a}]->(m)", "MATCH (n)-[e* {p: x}]->(m)", "MATCH (n $a)", "MATCH (n)-[e $a]->(m)", "MATCH (n) WHERE $a", "MATCH (n) WHERE x", "MATCH (n) WHERE n.p = x", "MATCH (n) WHERE x.p", "MATCH (n {p: x.p})", "MATCH (n), (x)", "MATCH (n) MATCH (n)-[x]->(m)", "MATCH (n) OPTIONAL MATCH (x)-[e]->(n)"}
	upds = []string{"", "SET n.p = $a", "SET n.p = x", "SET x.p = 1", "SET n.p.q = x", "SET x.p.q = 1", "SET n = x", "SET n += x", "SET n = $a", "SET n += $a", "SET x = n", "SET x += n", "SET x = {p: 1}", "SET x:L", "SET n:L", "SET m.p = x", "SET e.p = 1", "SET n.l = [x, $a], n.p = n.l[0]", "SET n.p = {a: x}", "SET n.p = n", "SET n.p = e",
		"REMOVE x.p", "REMOVE x:A", "REMOVE n.p", "REMOVE n.p.a", "REMOVE n:A", "REMOVE e.p", "REMOVE m:A",
		"DELETE x", "DELETE n", "DELETE $a", "DELETE e", "DELETE n.p", "DETACH DELETE x", "DETACH DELETE n", "DETACH DELETE $a", "DETACH DELETE m, x", "DELETE 1", "DELETE null",
		"CREATE (x)", "CREATE (x)-[:T]->(y)", "CREATE (y)-[x:T]->(z)", "CREATE (y {p: x})", "CREATE (y {p: $a, q: x.p})", "CREATE (y $a)", "CREATE (n)-[e2:T $a]->(y)", "CREATE (n)-[:T {p: x}]->(n)", "CREATE x = (n)-[:T]->(m)", "CREATE (x:L)", "CREATE (n)-[:T*2]->(m)", "CREATE (n)-[:T|U]->(m)", "CREATE (n)-[]->(m)", "CREATE (n)-[:T]-(m)",
		"MERGE (x)", "MERGE (x)-[:T]->(y)", "MERGE (n)-[x:T]->(m)", "MERGE (y {p: x})", "MERGE (y:M {p: $a})", "MERGE (y $a)", "MERGE (y:M) ON CREATE SET y.p = x ON MATCH SET x.p = $a", "MERGE x = (n)-[:T]->(y)", "MERGE (n)-[:T*2]->(y)"}
	rets = []string{"", "RETURN *", "RETURN x", "RETURN n, e", "RETURN x.p", "RETURN n.p", "RETURN DISTINCT x, $a", "RETURN x AS k ORDER BY k", "RETURN n.p AS k ORDER BY $a, k DESC", "RETURN 1 AS k ORDER BY x.p", "RETURN 1 SKIP $a", "RETURN 1 LIMIT $a", "RETURN m.p SKIP 1 LIMIT 1"}
	return
}

// lastNode tells if the node that was created last is in the graph
func lastNode(w *sut.World, last *lpg.Node) bool {
	for itr := w.G.GetNodes(); itr.Next(); {
		if itr.Node() == last {
			return true
		}
	}
	return false
}

func totalClauses(r *mc.Run) {
	ops := operands()
	reads, upds, rets := totalClauseTexts()
	graphs := totalGraphs()
	type cq struct {
		text string
		all  bool
	}
	var qs []cq
	for _, a := range reads {
		for _, b := range upds {
			for _, c := range rets {
				if a == "" && b == "" && c == "" || b == "" && c == "" {
					continue
				}
				qs = append(qs, cq{strings.Join(strings.Fields(a+" "+b+" "+c), " "), c == "" || c == "RETURN *" || b == "" || a == "" || r.Thorough})
			}
		}
	}
	for _, a := range []string{"", "MATCH (n)", "MATCH (n)-[e]->(m)"} {
		for i, b := range upds {
			for j, c := range upds {
				if b == "" || c == "" || i == j {
					continue
				}
				qs = append(qs, cq{strings.TrimSpace(a + " " + b + " " + c), r.Thorough || a == "MATCH (n)"})
			}
		}
	}
	for _, u := range []string{"UNWIND $a AS n RETURN n", "UNWIND x AS n SET n.p = 1", "MATCH (n) WITH n RETURN n", "WITH $a AS n RETURN n", "MATCH (n) WITH n.p AS q WHERE q = x RETURN q", "CALL f() YIELD n RETURN n", "CALL f($a)", "MATCH (n) UNWIND $a AS m RETURN m", "CALL f", "MATCH (n) CALL f(n) YIELD z RETURN z",
		"RETURN x UNION RETURN $a", "RETURN x UNION ALL RETURN $a", "RETURN x AS k UNION MATCH (n) RETURN n AS k", "RETURN x AS k UNION MATCH (n) RETURN n.p AS k UNION RETURN $a AS k", "MATCH (n) SET n.p = x RETURN 1 UNION MATCH (n) RETURN n.p", "CREATE (n) RETURN n UNION MATCH (n) RETURN n", "MATCH (n) DETACH DELETE n UNION MATCH (n) RETURN n", "RETURN x UNION RETURN x, $a"} {
		qs = append(qs, cq{u, true})
	}
	probeText := []string{"MATCH (probe) RETURN probe", "CREATE (probe:Probe) RETURN probe", "MATCH (probe:Probe) RETURN probe", "RETURN 1 AS one"}
	var few []int
	for i, o := range ops {
		switch o.name {
		case "null", "true", "1", "'p'", "[1]", "['p',1.5]", "{p:1}", "{p:{a:1}}", "node", "relationship", "path of 2", "no edges", "result set", "datetime":
			few = append(few, i)
		}
	}
	all := make([]int, len(ops))
	for i := range all {
		all[i] = i
	}
	r.Note("clause_combinations", int64(len(qs)))
	r.Par(len(qs), func(w *mc.W, qi int) {
		text := qs[qi].text
		q, err := sut.SafeParse(text)
		if err != nil {
			if isPanic(err) {
				w.Fail(text, "does not parse: "+err.Error())
			}
			return
		}
		dom := few
		if qs[qi].all {
			dom = all
		}
		reject := false
		for _, k := range []string{"UNWIND", "WITH ", "CALL"} {
			reject = reject || strings.Contains(text, k)
		}
		var probes []oc.Evaluatable
		for _, p := range probeText {
			x, err := w.Cache.Parse(p)
			if err != nil {
				w.Fail(p, "does not parse: "+err.Error())
				return
			}
			probes = append(probes, x)
		}
		// lpg loses nodes that are created after the newest one was
		// deleted (known finding of C18)
		lossy := strings.Contains(text, "DELETE") && (strings.Contains(text, "CREATE") || strings.Contains(text, "MERGE"))
		usesX := strings.Contains(text, "x")
		usesA := strings.Contains(text, "$a")
		if !usesX && !usesA {
			dom = dom[:1]
		}
		for gi, g := range graphs {
			for _, k := range dom {
				for mode := 0; mode < 3; mode++ {
					// x and a are the same, or one of them is missing
					if mode > 0 && !(usesX && usesA) || mode == 2 && k != dom[0] {
						continue
					}
					if r.Stopped() {
						return
					}
					if cyclic(text, ops[k].name) {
						continue
					}
					w.Case(fmt.Sprintf("%s with %s, mode %d on graph %d", text, ops[k].name, mode, gi), func() string {
						world := sut.Build(g, sut.BuildOpts{})
						last := world.Node(ref.NodeID(len(g.Nodes) - 1))
						ctx := oc.NewEvalContext(world.G)
						v := oc.RValue{Value: ops[k].mk(world)}
						if mode != 1 {
							ctx.SetVar("x", v)
						}
						if mode != 2 {
							ctx.SetParameter("$a", v)
						}
						rs, err, bad := evalTotal(world, q, ctx)
						r.Trans(1)
						r.Trace(1)
						if bad != "" {
							return bad
						}
						if err != nil {
							r.ErrOutcome()
							r.State(text + "\x00" + err.Error())
						} else {
							r.State(fmt.Sprint(text, "\x00", len(rs.Rows), world.G.NumNodes(), world.G.NumEdges()))
							if reject && !(gi == 0 && strings.HasPrefix(text, "MATCH")) {
								// No row gets to the construct
								return "gives a result although the construct is not supported"
							}
						}
						if _, err := world.Snapshot(); err != nil && !lossy {
							return "leaves an inconsistent graph: " + err.Error()
						}
						// The context and the graph can be used
						n := world.G.NumNodes()
						for pi, p := range probes {
							want := 1
							if pi == 0 {
								want = n
							}
							if lossy || (pi == 1 || pi == 2) && last != nil && !lastNode(world, last) {
								continue
							}
							if pi == 0 {
								ctx.RemoveVar("probe")
							}
							rs, err, bad := evalTotal(world, p, ctx.SubContext())
							if bad != "" {
								return "and then " + probeText[pi] + " " + bad
							}
							if err != nil {
								return "and then " + probeText[pi] + " gives error " + err.Error()
							}
							if len(rs.Rows) != want {
								return fmt.Sprintf("and then %s gives %d rows instead of %d", probeText[pi], len(rs.Rows), want)
							}
						}
						if _, err := world.Snapshot(); err != nil && !lossy {
							return "leaves an inconsistent graph: " + err.Error()
						}
						return ""
					})
				}
			}
		}
	})
}
