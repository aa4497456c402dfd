package checks

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"

	"verif/harness/ref"
)

// ConcThread is what one thread does
type ConcThread struct {
	// Text is a query or a pattern expression
	Text string
	Env  reuseEnv
	// This is the starting node of a pattern expression
	This ref.NodeID
}

// ConcJob is a set of threads
type ConcJob struct {
	Name    string
	Threads []ConcThread
	// Kind is query, pattern, or parse: in this case the threads parse
	// the text too
	Kind string
	// OneGraph is set if the threads share the graph of the first
	OneGraph bool
	// Index is set if the graph has indexes
	Index bool
	// Bound is the number of preemptions
	Bound int
	// RaceBound is the number of preemptions with the race detector
	RaceBound int
}

func (t ConcThread) Graph() *ref.Graph        { return t.Env.g }
func (t ConcThread) Vars() map[string]ref.V   { return t.Env.vars }
func (t ConcThread) Params() map[string]ref.V { return t.Env.params }

func (j ConcJob) describe() string {
	s := fmt.Sprintf("%s with %d threads", j.Kind, len(j.Threads))
	if j.OneGraph {
		s += " on one graph"
	}
	if j.Index {
		s += " with indexes"
	}
	s += fmt.Sprintf(", up to %d preemptions:", j.Bound)
	for _, t := range j.Threads {
		s += " {" + t.Text + " on " + t.Env.text
		if j.Kind == "pattern" {
			s += fmt.Sprintf(" from n%d", t.This)
		}
		s += "}"
	}
	return s
}

// ConcIndex adds the indexes of a job to a graph
func ConcIndex(g *lpg.Graph) {
	index{nodes: []string{"p"}, edges: []string{"p"}, typ: lpg.HashIndex}.add(g)
}

// ConcJobs is the list of all jobs
func ConcJobs(thorough bool) []ConcJob {
	var out []ConcJob
	add := func(j ConcJob) {
		j.Name = j.describe()
		if j.Bound == 1 && len(out)%8 == 0 && j.Kind != "parse" && len(j.Threads) == 2 {
			j.RaceBound = 1
		}
		out = append(out, j)
	}
	envs := func(vals ...[3]ref.V) []reuseEnv {
		var r []reuseEnv
		for i, v := range vals {
			g := ref.NewGraph()
			m := ref.Map{}
			params := map[string]ref.V{}
			vars := map[string]ref.V{}
			for k, x := range v {
				if x != nil {
					m[pnames[k]] = x
				}
				params[pnames[k]] = x
				vars[string(rune('x'+k))] = x
			}
			vars["n"] = g.AddNode([]string{"A"}, m)
			e := reuseEnv{g: g, vars: vars, params: params}
			e.text = fmt.Sprintf("values %s", ref.Key(ref.List{v[0], v[1], v[2]}))
			r = append(r, e)
			_ = i
		}
		return r
	}
	all := reuseEnvs()
	threads := func(text string, es ...reuseEnv) []ConcThread {
		var r []ConcThread
		for _, e := range es {
			r = append(r, ConcThread{Text: text, Env: e})
		}
		return r
	}
	seen := map[string]bool{}
	// Expressions
	for ci, c := range constructs() {
		good, ok := workingEnv(c)
		first := all[ci%len(all)]
		if ok {
			first = [3]ref.V{}
			copy(first[:], good)
		}
		kinds := [][]int{{0, 0, 0}, {2, 4, 2}, {4, 4, 4}}
		if thorough {
			kinds = append(kinds, []int{1, 1, 1}, []int{3, 3, 3}, []int{4, 0, 6}, []int{0, 6, 0})
		}
		for ki, k := range kinds {
			h := make([]ref.Expr, c.n)
			for i := range h {
				h[i] = leaf(k[i], i)
			}
			if ki == 2 && ok {
				for i := range h {
					h[i] = lit(good[i])
				}
			}
			text := "RETURN " + c.mk(h).Str() + " AS v"
			if seen[text] {
				continue
			}
			seen[text] = true
			// Another assignment with another result
			second := all[(ci+ki+1)%len(all)]
			a := envs(first, second)
			add(ConcJob{Kind: "query", Threads: threads(text, a[0], a[1]), Bound: 1})
			if thorough || ki == 0 && ci%3 == 0 {
				add(ConcJob{Kind: "query", Threads: threads(text, a[0], a[1]), Bound: 2})
				t := envs(first, second, all[(ci+ki+2)%len(all)])
				add(ConcJob{Kind: "query", Threads: threads(text, t...), Bound: 1})
			}
		}
	}
	// Queries
	qe := reuseQueryEnvs()
	for qi, q := range reuseTemplates() {
		text := q.Str()
		pairs := [][2]int{{qi % len(qe), (qi + 1) % len(qe)}}
		if thorough {
			pairs = append(pairs, [2]int{(qi + 1) % len(qe), (qi + 3) % len(qe)}, [2]int{(qi + 2) % len(qe), (qi + 2) % len(qe)})
		}
		for _, p := range pairs {
			add(ConcJob{Kind: "query", Threads: threads(text, qe[p[0]], qe[p[1]]), Bound: 1})
		}
		if !hasUpdates(q) {
			e := qe[1]
			e2 := qe[3]
			e3 := qe[5]
			e2.g, e3.g = e.g, e.g
			if qi%2 == 0 || thorough {
				add(ConcJob{Kind: "query", Threads: threads(text, e, e2), OneGraph: true, Index: qi%4 == 0, Bound: 1})
			}
			if thorough {
				add(ConcJob{Kind: "query", Threads: threads(text, e, e2, e3), OneGraph: true, Index: qi%4 == 1, Bound: 1})
			}
		}
	}
	// Functions, paths and text
	g := qe[1]
	h := qe[0]
	for _, text := range []string{
		"RETURN size([1, 2, $q]), range(1, $p), range(3, $p, -1), size('abc')",
		"RETURN my.ident($p), my.sub.ident($q), my.ident(1) + 1, tick(1)",
		"RETURN my.sub.ident($p), ident(my.ident($q))",
		"RETURN left('abc' + 'd', $p), right('abc', 1), substring('abcd', 1, $p), trim(' a '), ltrim(' b '), rtrim(' c ')",
		"RETURN split('a,b,c', ','), split('abc', ''), [split('a b', ' '), 1][0][1]",
		"RETURN toInteger('12'), toInteger($p), toFloat('1.5'), toIntegerOrNull('x'), toFloatOrNull($p)",
		"RETURN date('2020-01-02'), parseDate('2020-01-02', '2006-01-02'), date('2020-01-02') < date('2021-01-02')",
		"MATCH (n)-[e]->() RETURN labels(n), type(e), size(labels(n)) ORDER BY type(e)",
		"RETURN CASE $p WHEN my.ident(1) THEN ident('one') WHEN 2 THEN 'two' ELSE $q END, CASE WHEN $p = 1 THEN 1 ELSE 2 END",
		"RETURN timestamp() > 0",
		"MATCH (a), (b), (c) WHERE ident(a.p) = 1 RETURN a.p, b.p, c.p",
		"MATCH (a {p: $p})-[e {p: my.ident(1)}]->(b:A:B) RETURN b.p",
		"UNWIND [3, 1, 2] AS x RETURN x ORDER BY x DESC SKIP ident(1) LIMIT ident(1)",
		"MATCH (n) SET n += {a: $p, b: [1, $q]} RETURN n.a, n.b",
		"MATCH (n) SET n = $m RETURN n.a",
		"MERGE (a:K {p: my.ident($p)}) ON CREATE SET a.q = my.ident(1) RETURN a.q",
		"MATCH (n) RETURN labels(n), n.p ORDER BY n.p DESC SKIP 0 LIMIT 10",
		"MATCH (n)-[e:X]->(b) RETURN type(e), e.p, [n.p, b.p]",
		"MATCH p = (n)-[:X*]->(b) RETURN 1",
		"MATCH (n) WHERE n.p = 1 OR n.p = $p RETURN DISTINCT n.p",
		"MATCH (n {p: 1}) RETURN n.p + 1 - 1 * 2, {a: 1, b: [1, 2]}, -1, 2 ^ 2",
		"MATCH (n:A) SET n.p = n.p + 1, n:Z REMOVE n.q RETURN n.p",
		"UNWIND [1, 2] AS x RETURN x",
		"RETURN date({year: 2020}) + 1",
		"MATCH (n), (m) RETURN n.p, m.p",
		"MATCH (n) OPTIONAL MATCH (n)-[:Y]->(m) RETURN n.p, m.p",
		"CREATE (a:K {p: $p})-[:R {q: 1}]->(b:K) RETURN a.p",
		"MERGE (a:K {p: 1}) ON CREATE SET a.q = $q ON MATCH SET a.r = 1 RETURN a.p",
		"MATCH (n) DETACH DELETE n",
		"RETURN 1 / 0",
		"RETURN 1 + nosuch",
	} {
		add(ConcJob{Kind: "query", Threads: threads(text, g, h), Bound: 1})
		add(ConcJob{Kind: "query", Threads: threads(text, g, h, qe[2]), Bound: 1})
	}
	// Two different queries
	for _, p := range [][2]string{
		{"RETURN [1, 2, $p]", "RETURN [1, 2, $q] + [3]"},
		{"MATCH (n) RETURN n.p", "MATCH (n) SET n.p = 7"},
		{"MATCH (n {p: 1}) RETURN n", "CREATE (n {p: 1})-[:X]->(m)"},
		{"RETURN range(1, 3)", "RETURN trim(' a ')"},
		{"RETURN my.ident(1)", "RETURN my.sub.ident(2)"},
		{"RETURN my.ident(1)", "RETURN my.ident2(2)"},
		{"MATCH (n:A:B) RETURN n.p", "MATCH (n:B)-[:X|Y]->(m:A) RETURN n.p"},
		{"RETURN date('2020-01-02')", "RETURN date('2020-02-03')"},
		{"RETURN CASE 1 WHEN $p THEN 1 END", "RETURN CASE WHEN 1 = $p THEN 1 ELSE 2 END"},
		{"MATCH (n) RETURN n.p ORDER BY n.p", "MATCH (n) RETURN DISTINCT n.p"},
		{"MATCH (n) RETURN n.p UNION RETURN 1", "MATCH (n) DELETE n"},
	} {
		t := []ConcThread{{Text: p[0], Env: g}, {Text: p[1], Env: h}}
		add(ConcJob{Kind: "query", Threads: t, Bound: 1})
		bound := 0
		if thorough {
			bound = 1
		}
		add(ConcJob{Kind: "parse", Threads: t, Bound: bound})
	}
	for _, text := range []string{"RETURN 1", "RETURN 'a\\tb'", "RETURN $p + 1 AS v", "RETURN 'a\\n' + \"b\"", "MATCH (n {p: 1})-[e:X*1..2]->(m) WHERE n.p > 0 RETURN n.p", "RETURN", "CREATE (n:A {a: [1, 2]})"} {
		bound := 0
		if thorough || len(text) < 20 {
			bound = 1
		}
		add(ConcJob{Kind: "parse", Threads: threads(text, g, h), Bound: bound})
	}
	// Pattern expressions
	pg := []*ref.Graph{qe[0].g, qe[1].g}
	for _, text := range []string{
		"(this)-[]->(target)",
		"(this)<-[]-(target)",
		"(this)-[]-(target)",
		"(this)-[:X]->(target:A)",
		"(this)-[:X|Y]->(target {p: 1})",
		"(this)-[e {p: 1}]->(target)",
		"(this)-[*1..2]->(target)",
		"(this)-[*]->(target)",
		"(this)-[]->()-[]->(target)",
		"(target)-[]->(this)",
		"(this)-[]->(this)-[]->(target)",
		"(this)-[e]->(x)-[e]->(target)",
		"(this {p: 1})-[:X]->(target {p: 2})",
		"(this {p: 1.0})-[:X]->(target {p: 2.0})",
		"()-[]->(this)-[]->(target)",
		"(this)",
		"(this {p: 1 + 1})-[]->(target {p: 2 - 1})",
		"(this)-[]->(target {p: nosuch})",
	} {
		for _, og := range []bool{false, true} {
			mk := func(starts ...int) []ConcThread {
				var r []ConcThread
				for i, s := range starts {
					gr := pg[i%2]
					if og {
						gr = pg[1]
					}
					r = append(r, ConcThread{Text: text, This: ref.NodeID(s), Env: reuseEnv{g: gr, text: gr.String()}})
				}
				return r
			}
			add(ConcJob{Kind: "pattern", Threads: mk(0, 1), OneGraph: og, Bound: 1})
			if thorough || !og {
				add(ConcJob{Kind: "pattern", Threads: mk(0, 1), OneGraph: og, Bound: 2})
				add(ConcJob{Kind: "pattern", Threads: mk(0, 1, 0), OneGraph: og, Bound: 1})
			}
		}
	}
	return out
}
