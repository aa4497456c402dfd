package checks

import (
	"fmt"
	"strings"
	"time"

	"verif/harness/grammar"
	"verif/harness/mc"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C06", Level: "model_checking",
		Bounds: "all sequences of up to 3 (thorough 4) tokens of the expression, pattern and clause alphabets in several surroundings, with and without spaces between them; every deletion, duplication, exchange and insertion of a token, every replacement by a token of the alphabet, every prefix, and every insertion or deletion of a character in every query of the corpus; every byte string of up to 2 bytes; nesting of every two constructs up to depth 4 (thorough 12), except where it takes too long, and long repetitions",
		Assume: []string{"text with a byte order mark or bytes that are not UTF-8 must not crash, but may be accepted or rejected", "the published grammar of the language decides what is well-formed; calls of procedures need not be supported"},
		Fn:     runC06,
	})
}

func gram(w *mc.W) *grammar.Grammar {
	if g, ok := w.Data["grammar"]; ok {
		return g.(*grammar.Grammar)
	}
	g := grammar.New()
	w.Data["grammar"] = g
	return g
}

// tooLarge finds numbers that cannot be represented
func tooLarge(v grammar.Verdict, g *grammar.Grammar) (bad, unspec bool) {
	for i, t := range v.Toks {
		switch g.TypeName(t.Type) {
		case "HexInteger", "OctalInteger", "DecimalInteger", "ExponentDecimalReal", "RegularDecimalReal":
			if i > 0 && (v.Toks[i-1].Text == "$") {
				continue
			}
			if _, _, fits := numberValue(t.Text); !fits {
				bad = true
				if t.Text == "9223372036854775808" && i > 0 && v.Toks[i-1].Text == "-" {
					unspec = true
				}
			}
		case "StringLiteral":
			if _, ok, spec := unescape(t.Text[1:len(t.Text)-1], t.Text[0]); !ok {
				bad = true
			} else if !spec {
				unspec = true
			}
		}
	}
	return
}

// parseCase checks that the text is accepted or rejected rightly
func parseCase(w *mc.W, seen *mc.Set, kind, text string, pattern bool) {
	if !seen.Add(text) {
		return
	}
	w.Case(kind+" "+text, func() string {
		r := w.R
		g := gram(w)
		var v grammar.Verdict
		var err error
		both := ""
		if pattern {
			v = g.Pattern(text)
			p, e := SafePattern(text)
			err = e
			if e == nil {
				// It must be usable
				_, fe := findRelative(p, sameWorld(w).Node(0))
				if isPanic(fe) {
					return "using the pattern " + fe.Error()
				}
			}
		} else {
			v = g.Query(text)
			q, e := sut.SafeParse(text)
			err = e
			switch {
			case q != nil && e != nil:
				both = "gives both a query and the error " + e.Error()
			case q == nil && e == nil:
				both = "gives neither a query nor an error"
			}
		}
		r.Trans(1)
		r.Trace(1)
		r.State(text)
		if isPanic(err) {
			return err.Error()
		}
		if both != "" {
			return both
		}
		bad, unspec := tooLarge(v, g)
		if !v.OK && err == nil && strings.IndexFunc(text, func(c rune) bool { return c > 0xffff }) >= 0 && kind != "name with a symbol" {
			// Known: see the case of that kind
			unspec = true
		}
		if unspec || v.Call {
			r.Unspec()
			return ""
		}
		want := v.OK && !bad
		if !want {
			r.ErrOutcome()
		}
		if want != (err == nil) {
			if want {
				return "is rejected: " + err.Error()
			}
			return "is accepted although it is malformed"
		}
		return ""
	})
}

var exprTokens = []string{"1", "'a'", "x", "$p", "(", ")", "[", "]", "{", "}", ",", ":", ".", "..", "+", "-", "*", "=", "<", ">", "AND", "NOT", "IN", "IS", "NULL", "CASE", "WHEN", "THEN", "END", "STARTS", "WITH", "f", "AS", "|", "1.5", "9223372036854775808", "DISTINCT"}
var patTokens = []string{"(", ")", "[", "]", "-", "<", ">", "a", ":", "A", "{", "}", "*", "..", "1", ",", "=", "|", "$p", "--", "-->", "[e]", "(b)"}
var clauseTokens = []string{"MATCH", "OPTIONAL", "(n)", "WHERE", "x", "RETURN", "CREATE", "MERGE", "SET", "n.p", "=", "DELETE", "DETACH", "REMOVE", "UNION", "ALL", "ORDER", "BY", "SKIP", "LIMIT", "1", "AS", ",", "*", "DISTINCT", "DESC", "ON", ";", "WITH", "UNWIND", "+=", "n:A", "CALL"}

var parseCorpus = append([]string{
	"MATCH (n) WITH n.p AS x WHERE x > 1 RETURN x",
	"UNWIND [1, 2] AS x RETURN x",
	"MATCH (a)-[e:X|:Y*1..3 {p: 1}]->(b:A:B {q: $v}) WHERE a.p IN [1, 2] RETURN DISTINCT a, b.q AS q ORDER BY q DESC, a.p SKIP 1 LIMIT 2",
	"RETURN [x IN [1, 2] WHERE x > 1 | x + 1] AS l, [(a)-->(b) | b.p] AS m, all(x IN [1] WHERE x = 1) AS n, count(*) AS c",
	"RETURN exists(n.p) AS x, (a)-->(b) AS y, a.b.c(DISTINCT 1, x) AS z",
	"RETURN a:B AS x, n.p.q AS y, count(DISTINCT x) AS z",
	"RETURN $1 AS a, $`b c` AS b, `x y`.`z` AS c, 0x1F AS d, 017 AS e, 1e-3 AS f, .5 AS g",
	"MATCH p = (a)-->(b) RETURN p",
	"CREATE p = (a), (b)-[:X]->(c) RETURN p",
	"MERGE (n)-[:X]->(m) ON CREATE SET n.p = 1, m += {a: 1} ON MATCH SET n:A:B",
	"MATCH (n) SET n = $m, n.p = null REMOVE n.q, n:A",
	"MATCH (n) DETACH DELETE n, n.p",
	"RETURN 1 AS x UNION ALL RETURN 2 AS x UNION RETURN 3 AS x;",
}, layoutQueries...)

func runC06(r *mc.Run) {
	seen := &mc.Set{}
	n := 3
	if r.Thorough {
		n = 4
	}
	// Sequences of tokens
	type family struct {
		kind       string
		pre, post  string
		toks       []string
		n          int
		sep        string
		pattern    bool
		skipSingle bool
	}
	var fams []family
	full := n
	for _, sep := range []string{" ", ""} {
		if n = full; sep == "" && !r.Thorough {
			n--
		}
		fams = append(fams,
			family{kind: "expression", pre: "RETURN ", toks: exprTokens, n: n, sep: sep},
			family{kind: "list", pre: "RETURN [", post: "] AS x", toks: exprTokens, n: n - 1, sep: sep},
			family{kind: "operand", pre: "RETURN 1 + (", post: ") * 2 AS x", toks: exprTokens, n: n - 1, sep: sep},
			family{kind: "condition", pre: "MATCH (n) WHERE n.p = ", post: " RETURN n", toks: exprTokens, n: n - 1, sep: sep},
			family{kind: "argument", pre: "RETURN f(1, ", post: ") AS x", toks: exprTokens, n: n - 1, sep: sep},
			family{kind: "alternative", pre: "RETURN CASE x WHEN ", post: " ELSE 2 END", toks: exprTokens, n: n - 1, sep: sep},
			family{kind: "node", pre: "MATCH (", post: ") RETURN 1", toks: patTokens, n: n, sep: sep},
			family{kind: "relationship", pre: "MATCH (a)-[", post: "]->(b) RETURN 1", toks: patTokens, n: n, sep: sep},
			family{kind: "pattern", pre: "MATCH (a)", post: " RETURN 1", toks: patTokens, n: n, sep: sep},
			family{kind: "creation", pre: "CREATE ", post: "", toks: patTokens, n: n, sep: sep},
			family{kind: "pattern expression", pre: "", post: "", toks: patTokens, n: n, sep: sep, pattern: true},
			family{kind: "pattern expression", pre: "(this)-[", post: "]->(target)", toks: patTokens, n: n - 1, sep: sep, pattern: true},
			family{kind: "pattern expression", pre: "(this)", post: "(target)", toks: patTokens, n: n, sep: sep, pattern: true},
			family{kind: "pattern expression", pre: "(this)-[]->(target)", post: "", toks: append([]string{";", "RETURN", "'a'", "x"}, patTokens...), n: n - 1, sep: sep, pattern: true},
		)
	}
	if !r.Thorough {
		n = 2
	}
	fams = append(fams,
		family{kind: "clauses", toks: clauseTokens, n: full, sep: " "},
		family{kind: "clauses", pre: "MATCH (n) ", toks: clauseTokens, n: n, sep: " "},
		family{kind: "clauses", pre: "RETURN 1 ", toks: clauseTokens, n: n, sep: " "},
		family{kind: "clauses", pre: "MATCH (n) SET n.p = 1 ", toks: clauseTokens, n: n, sep: " "},
		family{kind: "clauses", pre: "MERGE (n) ", toks: clauseTokens, n: n, sep: " "},
	)
	for _, f := range fams {
		f := f
		// One part for every first two tokens
		k := len(f.toks)
		r.Par(k*k, func(w *mc.W, i int) {
			var rec func(cur []string)
			rec = func(cur []string) {
				if r.Stopped() {
					return
				}
				parseCase(w, seen, f.kind, f.pre+strings.Join(cur, f.sep)+f.post, f.pattern)
				if len(cur) == f.n {
					return
				}
				for _, t := range f.toks {
					rec(append(cur[:len(cur):len(cur)], t))
				}
			}
			a, b := f.toks[i/k], f.toks[i%k]
			if i == 0 {
				parseCase(w, seen, f.kind, f.pre+f.post, f.pattern)
			}
			if i%k == 0 {
				parseCase(w, seen, f.kind, f.pre+a+f.post, f.pattern)
			}
			if f.n >= 2 {
				rec([]string{a, b})
			}
		})
		r.Note("token_sequences", int64(pow(k, f.n)))
	}
	// Mutations of queries
	all := append(append(append([]string{}, exprTokens...), patTokens...), clauseTokens...)
	if !r.Thorough {
		var few []string
		for i, t := range all {
			if i%14 == 0 || strings.ContainsAny(t, ")]};") {
				few = append(few, t)
			}
		}
		all = few
	}
	r.Par(len(parseCorpus)*8, func(w *mc.W, ix int) {
		q := parseCorpus[ix/8]
		part := ix % 8
		v := gram(w).Query(q)
		if !v.OK {
			w.Fail("corpus "+q, "is not accepted by the grammar")
			return
		}
		var toks []string
		for _, t := range v.Toks {
			toks = append(toks, t.Text)
		}
		join := func(parts ...[]string) string {
			s := ""
			for _, p := range parts {
				s += strings.Join(p, "")
			}
			return s
		}
		if part == 0 {
			parseCase(w, seen, "corpus", q, false)
		}
		for i := range toks {
			if i%8 != part {
				continue
			}
			parseCase(w, seen, "without a token", join(toks[:i], toks[i+1:]), false)
			parseCase(w, seen, "with a token twice", join(toks[:i+1], toks[i:]), false)
			parseCase(w, seen, "with a token twice", join(toks[:i+1], []string{" "}, toks[i:]), false)
			parseCase(w, seen, "cut", join(toks[:i]), false)
			parseCase(w, seen, "rest", join(toks[i:]), false)
			for j := i + 1; j < len(toks) && (j <= i+2 || r.Thorough); j++ {
				sw := append([]string{}, toks...)
				sw[i], sw[j] = sw[j], sw[i]
				parseCase(w, seen, "with exchanged tokens", join(sw), false)
				parseCase(w, seen, "without tokens", join(toks[:i], toks[j+1:]), false)
			}
			for _, t := range all {
				if !r.Thorough && ix/8 >= 14 {
					break
				}
				parseCase(w, seen, "with another token", join(toks[:i], []string{t}, toks[i+1:]), false)
				if r.Thorough {
					parseCase(w, seen, "with an additional token", join(toks[:i], []string{" ", t, " "}, toks[i:]), false)
				}
			}
		}
		chars := []rune(q)
		for i := 0; i <= len(chars); i++ {
			if i%8 != part || !r.Thorough && (ix/8 >= 14 || (i/8+ix/8)%4 != 0) {
				continue
			}
			parseCase(w, seen, "cut", string(chars[:i]), false)
			if i < len(chars) {
				parseCase(w, seen, "without a character", string(chars[:i])+string(chars[i+1:]), false)
			}
			for k, c := range []string{"!", "'", ")", ";", "/", "\x00", "@", "#", "~", "&", "\\", "?", "\u00bf", "^", "%", "\"", "`", "|", "]", "}", ".", "$", "€", "1", "😀", "\u200b"} {
				if !r.Thorough && (i+k)%9 != 0 {
					continue
				}
				parseCase(w, seen, "with a character", string(chars[:i])+c+string(chars[i:]), false)
			}
		}
	})
	patCorpus := []string{"(this)", "(this)-->(target)", "(this)<-[:X]-(:A)-[*1..2 {p: 1}]->(target :B {q: 'a'})", "(this)-[e]-()--(target)", "x = (this)-[]->(target)", "((this)-->(target))", "(this {p: $q})<--(target)"}
	r.Par(len(patCorpus), func(w *mc.W, i int) {
		q := patCorpus[i]
		v := gram(w).Pattern(q)
		if !v.OK {
			w.Fail("corpus "+q, "is not accepted by the grammar")
			return
		}
		chars := []rune(q)
		for i := 0; i <= len(chars); i++ {
			parseCase(w, seen, "pattern cut", string(chars[:i]), true)
			for _, c := range []string{"!", "@", "#", "?", "\x00", ";", "'", "`", "/", "|", ")", "(", "]", "[", "}", "{", ".", "$", "1", "-", "<", ">", ":", ",", "a", " ", "*", "//", "/**/"} {
				parseCase(w, seen, "pattern with a character", string(chars[:i])+c+string(chars[i:]), true)
			}
			for j := i + 1; j <= len(chars) && j <= i+6; j++ {
				parseCase(w, seen, "pattern without characters", string(chars[:i])+string(chars[j:]), true)
			}
		}
		parseCase(w, seen, "pattern and query", q+" RETURN 1", true)
		parseCase(w, seen, "pattern and pattern", q+", "+q, true)
		parseCase(w, seen, "pattern and pattern", q+" "+q, true)
	})
	runBytes(r)
	runNesting(r)
}

func pow(a, b int) int {
	x := 1
	for ; b > 0; b-- {
		x *= a
	}
	return x
}

// crashOnly checks that parsing gives a query or an error
func crashOnly(w *mc.W, kind, text string) {
	w.Case(kind+" "+fmt.Sprintf("%q", clipText(text)), func() string {
		w.R.Trans(2)
		w.R.State(text)
		q, err := sut.SafeParse(text)
		if isPanic(err) {
			return err.Error()
		}
		if (q == nil) == (err == nil) {
			return fmt.Sprintf("gives %v and %v", q, err)
		}
		if _, err := SafePattern(text); isPanic(err) {
			return "as a pattern: " + err.Error()
		}
		return ""
	})
}

func clipText(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%s... (%d bytes)", s[:120], len(s))
	}
	return s
}

func runBytes(r *mc.Run) {
	r.Par(256, func(w *mc.W, i int) {
		crashOnly(w, "bytes", string([]byte{byte(i)}))
		step := 16
		if r.Thorough {
			step = 1
		}
		for j := i % step; j < 256; j += step {
			crashOnly(w, "bytes", string([]byte{byte(i), byte(j)}))
		}
		for _, q := range []string{"RETURN 1", "MATCH (n:A) RETURN n.p AS x", "RETURN 'a' AS `b`"} {
			for k := 0; k <= len(q); k++ {
				if !r.Thorough && (k+i)%4 != 0 {
					continue
				}
				crashOnly(w, "with a byte", q[:k]+string([]byte{byte(i)})+q[k:])
			}
		}
	})
	r.Seq(func(w *mc.W) {
		for _, c := range []string{"\U0001F600", "\U0001D7FF"} {
			parseCase(w, &mc.Set{}, "name with a symbol", "RETURN 1 AS x"+c, false)
		}
		parseCase(w, &mc.Set{}, "name with a symbol", "RETURN 1 AS x\u20bf\u00b7", false)
		parseCase(w, &mc.Set{}, "name with a symbol", "RETURN 1 AS x\u2603", false)
		crashOnly(w, "empty", "")
		crashOnly(w, "byte order mark", "\ufeffRETURN 1")
	})
}

func runNesting(r *mc.Run) {
	wraps := [][2]string{{"(", ")"}, {"[", "]"}, {"{a: ", "}"}, {"f(", ")"}, {"CASE WHEN ", " THEN 1 END"}, {"CASE WHEN true THEN ", " END"}, {"CASE ", " WHEN 1 THEN 2 END"}, {"NOT ", ""}, {"-", ""}, {"1 + ", ""}, {"x IN [", "]"}, {"l[", "]"}, {"l[1..", "]"}, {"", ".p"}, {"", "[0]"}, {"", " IS NULL"}, {"[x IN ", " | x]"}, {"all(x IN ", " WHERE x)"}, {"(a)-[{p: ", "}]->()"}, {"(n {p: ", "})-->()"}, {"true AND ", ""}, {"2 ^ ", ""}, {"", " = 1"}, {"( ", " )"}, {"f(1, ", ", 2)"}}
	maxDepth, limit := 4, 200*time.Millisecond
	if r.Thorough {
		maxDepth, limit = 12, 2*time.Second
	}
	seen := &mc.Set{}
	r.Par(len(wraps)*len(wraps), func(w *mc.W, i int) {
		a, b := wraps[i/len(wraps)], wraps[i%len(wraps)]
		for d := 1; d <= maxDepth; d++ {
			var longest time.Duration
			for _, full := range []int{0, 1, 2} {
				x := "x"
				if full == 1 {
					x = ""
				}
				pre, post := "", ""
				for k := 0; k < d; k++ {
					pre += a[0] + b[0]
					post = b[1] + a[1] + post
				}
				text := "RETURN " + pre + x + post + " AS y"
				if full == 2 {
					text = "RETURN " + pre + x
				}
				if r.Stopped() {
					return
				}
				t := time.Now()
				parseCase(w, seen, "nested", text, false)
				e := time.Since(t)
				if e > longest {
					longest = e
				}
				if e > 30*time.Second {
					w.Fail("nested "+text, fmt.Sprintf("takes %v", e.Round(time.Second)))
				}
			}
			// The time grows exponentially with the depth for some
			// constructs: see slowNesting
			if longest > limit {
				r.Note("nestings_stopped_early", 1)
				break
			}
		}
	})
	// Some ambiguous nestings take exponential time
	r.Par(2, func(w *mc.W, i int) {
		key := []string{"nested ambiguous [(a)-[{p: 5 levels", "nested ambiguous (l[ 11 levels"}[i]
		text := "RETURN " + strings.Repeat("[(a)-[{p: ", 5) + "x" + strings.Repeat("}]->() | 1]", 5)
		if i == 1 {
			text = "RETURN " + strings.Repeat("(l[", 11) + "x" + strings.Repeat("])", 11)
		}
		if r.Only != "" && r.Only != key {
			return
		}
		done := make(chan struct{})
		go func() {
			sut.SafeParse(text)
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(8 * time.Second):
			w.Fail(key, "parsing "+text+" takes more than 8 s")
		}
	})
	// Long texts
	type rep struct{ pre, x, post string }
	reps := []rep{{"RETURN 1", " + 1", " AS x"}, {"RETURN true", " AND true", ""}, {"RETURN true", " OR x", ""}, {"RETURN true", " XOR x", ""}, {"RETURN 1", " = 1", ""}, {"RETURN x", ".p", ""}, {"RETURN x", "[0]", ""}, {"RETURN x", " IS NULL", ""}, {"RETURN x", " STARTS WITH 'a'", ""}, {"RETURN 2", " ^ 2", ""}, {"RETURN 2", " * 2", ""}, {"RETURN [1", ", 1", "]"}, {"RETURN {a: 1", ", a: 1", "}"}, {"RETURN 1", ", 1", ""}, {"MATCH (a)", "-->()", " RETURN a"}, {"MATCH (a)", "-[:X*1..2]-(b)", " RETURN a"}, {"MATCH (a)", ", (a)", " RETURN a"}, {"MATCH (a", ":A", ") RETURN a"}, {"MATCH (a)", " MATCH (a)", " RETURN a"}, {"MATCH (a)-[:X", "|Y", "]->() RETURN a"}, {"CREATE (a)", " CREATE ()", ""}, {"MATCH (a) SET a.p = 1", ", a.p = 1", ""}, {"MATCH (a) SET a.p = 1", " SET a.p = 1", ""}, {"MATCH (a) REMOVE a.p", ", a.p", ""}, {"MATCH (a) DELETE a", ", a", ""}, {"MERGE (a)", " ON MATCH SET a.p = 1", ""}, {"RETURN 1 AS x", " UNION RETURN 1 AS x", ""}, {"RETURN 1 AS x ORDER BY x", ", x", ""}, {"RETURN CASE", " WHEN 1 THEN 2", " END"}, {"RETURN '", "x", "'"}, {"RETURN '", "\\n", "'"}, {"RETURN x AS `", "``", "`"}, {"RETURN ", " ", "1"}, {"RETURN ", "/* */", "1"}, {"RETURN ", "// x\n", "1"}, {"RETURN ", "-", "1"}, {"RETURN ", "NOT ", "x"}, {"RETURN ", "1", " AS x"}, {"RETURN 0.", "1", " AS x"}, {"RETURN ", "x", " AS x"}, {"RETURN f(1", ", 1", ")"}, {"RETURN ", "x.", "y()"}, {"", ";", ""}, {"", "(", ""}, {"", ")", ""}, {"RETURN 1 ", "RETURN 1 ", ""}, {"", "\x00", ""}, {"", "'", ""}, {"", "`", ""}, {"", "/*", ""}, {"RETURN (a)", "-->(a", ""}, {"RETURN ", "(a)-", ""}}
	r.Par(len(reps), func(w *mc.W, i int) {
		for _, n := range []int{10, 100, 400} {
			x := reps[i]
			if strings.Contains(x.x, "1") && strings.HasPrefix(x.pre, "RETURN ") && x.x == "1" && n > 18 && x.pre == "RETURN " {
				continue
			}
			if x.x == "(" && n > 100 {
				continue
			}
			parseCase(w, seen, "long", x.pre+strings.Repeat(x.x, n)+x.post, false)
		}
	})
}
