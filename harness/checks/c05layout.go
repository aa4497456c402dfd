package checks

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

// layoutQueries have a space at every place where white space can be.
// Keywords are in upper case, everything else is not
var layoutQueries = []string{
	"RETURN 1 AS x",
	"MATCH ( n :a {p : 1 } ) RETURN n . p AS x , n",
	"MATCH (n) WHERE n . p = 1 AND NOT n . q IS NULL OR n . p > 2 XOR n . p <= 1 RETURN n . p AS x ORDER BY x DESC, n . q ASCENDING SKIP 1 LIMIT 2",
	"MATCH (n) RETURN DISTINCT n . p AS x ORDER BY x DESC LIMIT 1",
	"MATCH (n) RETURN DISTINCT n . p AS x ORDER BY x DESCENDING SKIP 1",
	"MATCH (n) RETURN n . p AS x ORDER BY x ASC LIMIT 1",
	"MATCH (n) RETURN * , 1 AS y",
	"MATCH ( a ) - [ e :x | y { w : 1 } ] - > ( b ) < - [ f :z ] - ( c ) RETURN a , b , c , e",
	"MATCH ( a ) - [ *1 .. 2 ] - > ( b ) RETURN a , b",
	"MATCH ( a ) - [ e ] - ( b ) , ( c :a ) RETURN a , c , e",
	"MATCH (a) - - > (b) RETURN a , b",
	"MATCH (a) < - - (b) RETURN a , b",
	"MATCH (a) - - (b) RETURN a , b",
	"OPTIONAL MATCH (a :zz) RETURN a",
	"MATCH (a :a) MATCH (b) OPTIONAL MATCH (a) - [ e ] - > (b) RETURN a , b , e",
	"CREATE ( a :a :b { p : 5 , q : 'x y' } ) - [ :x { w : 1 } ] - > ( b ) , ( c ) RETURN a . p AS x",
	"CREATE ( a :a) CREATE (b :b)",
	"MATCH (n :a) SET n . p = 2 , n . q = n . p + 1 , n :c :d , n += { r : 3 } RETURN n . p AS x , n . q AS y",
	"MATCH (n :a) SET n = { r : 3 }",
	"MATCH (n) REMOVE n . p , n:a , n . q RETURN labels( n ) AS x",
	"MATCH (n) - [ e ] - > () DELETE e RETURN 1 AS x",
	"MATCH (n :a) DETACH DELETE n",
	"MERGE ( n :a { p : 9 } ) ON CREATE SET n . q = 1 ON MATCH SET n . q = 2 RETURN n . q AS x",
	"MATCH (a :a) , (b :b) MERGE (a) - [ e :k ] - > (b) ON MATCH SET a . z = 1 RETURN type( e ) AS x",
	"MATCH (n :a) RETURN n . p AS x UNION MATCH (n :b) RETURN n . p AS x",
	"MATCH (n :a) RETURN n . p AS x UNION ALL MATCH (n) RETURN n . p AS x UNION ALL RETURN 7 AS x",
	"RETURN CASE WHEN 1 > 2 THEN 'a' WHEN TRUE THEN 'b' ELSE 'c' END AS x , CASE 3 WHEN 1 THEN 'one' WHEN 3 THEN 'three' END AS y , CASE 3 WHEN 1 THEN 2 ELSE NULL END AS z",
	"RETURN 'ab c' STARTS WITH 'a' AS x , 'abc' ENDS WITH 'c' AS y , 'abc' CONTAINS 'b' AS z , 1 IN [ 1 , 2 ] AS u , NULL IS NULL AS v , 1 IS NOT NULL AS w",
	"RETURN [ 1 , 2 , 3 ] [1] AS x , [ 1 , 2 , 3 ] [0..2] AS y , { a : 1 , b : [ 2 ] } AS z , size( [ 1 , 2 ] ) AS u , $v + 1 AS w",
	"RETURN 1 + 2 * 3 - 4 / 2 % 3 ^ 2 AS x , - 1 - - 2 AS y , - ( 1 + 2 ) * 3 AS z , NOT FALSE AS w , NOT NOT TRUE AS u",
	"RETURN substring( 'hello' , 1 , 3 ) AS x , left( 'ab' , 1 ) AS y , date( { year : 2020 , month : 2 , day : 3 } ) AS z",
	"RETURN 1 < 2 <= 3 AS x , 1 = 1.0 AS y , 1 <> 2 AS z , 3 > 2 >= 1 AS u",
}

var spaces = []string{"  ", "\t", "\n", "\r\n", "\r", "\v", "\f", "\x1c", "\x1d", "\x1e", "\x1f", "\u00a0", "\u1680", "\u180e", "\u2000", "\u2003", "\u2007", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000",
	"/**/", "/* c */", "/* RETURN 1 */", "/* '\"` */", "// c\n", "// \"'`\r\n", " /* a\nb */ ", "/* / */", "//\n", "/* ** x */", "/*// */", "/* a */ /* b */", "/* é😀 */", " // ; \n\t", "", "/*/ */"}

// eachGap are the spaces that are tried on their own at every place
// even in the quick tier; the others are at every fourth place
var eachGap = map[string]bool{"": true, "\t": true, "\n": true, "/* c */": true, "// c\n": true, "/* '\"` */": true}

// commentDefect are comments that the grammar does not take for
// comments, because it reads the stars in pairs
var commentDefect = []string{"/***/", "/** c **/", "/* c **/"}

func layoutGraph() *ref.Graph {
	g := ref.NewGraph()
	a := g.AddNode([]string{"a"}, ref.Map{"p": 1, "q": "k"})
	b := g.AddNode([]string{"a", "b"}, ref.Map{"p": 2})
	c := g.AddNode([]string{"b"}, ref.Map{"p": 3, "q": "z"})
	g.AddEdge(a, b, "x", ref.Map{"w": 1})
	g.AddEdge(c, b, "z", ref.Map{"w": 1})
	g.AddEdge(b, c, "y", nil)
	return g
}

// meaning evaluates a query and describes what it does
func meaning(r *mc.Run, text string, ordered bool) (string, error) {
	p, err := sut.SafeParse(text)
	if err != nil {
		return "", err
	}
	g := layoutGraph()
	fn, fe := g.Next()
	w := sut.Build(g, sut.BuildOpts{})
	o := w.Eval(p, w.Ctx(nil, map[string]ref.V{"v": 4}))
	r.Trans(1)
	if o.Err != nil || o.Panic != "" || o.Bad != "" {
		return o.String(), nil
	}
	s, err := w.Snapshot()
	if err != nil {
		return "inconsistent graph: " + err.Error(), nil
	}
	return ref.Canon(s, o.Rows, ordered, fn, fe) + strings.Join(o.Cols, ","), nil
}

// gaps cuts a query at its spaces, leaving string literals whole
func gaps(q string) []string {
	var out []string
	cur := ""
	inStr := false
	for _, c := range q {
		if c == '\'' {
			inStr = !inStr
		}
		if c == ' ' && !inStr {
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += string(c)
	}
	return append(out, cur)
}

func isWordChar(c rune) bool {
	return c == '_' || c == '$' || c == '`' || c == '.' || unicode.IsLetter(c) || unicode.IsDigit(c)
}

func glue(a, b string) bool {
	x, _ := utf8.DecodeLastRuneInString(a)
	y, _ := utf8.DecodeRuneInString(b)
	return isWordChar(x) && isWordChar(y)
}

func keyword(t string) bool {
	if len(t) < 2 {
		return false
	}
	for _, c := range t {
		if c < 'A' || c > 'Z' {
			return false
		}
	}
	return true
}

var dashes = []string{"\u00ad", "\u2010", "\u2011", "\u2012", "\u2013", "\u2014", "\u2015", "\u2212", "\ufe58", "\ufe63", "\uff0d"}
var lefts = []string{"\u27e8", "\u3008", "\ufe64", "\uff1c"}
var rights = []string{"\u27e9", "\u3009", "\ufe65", "\uff1e"}

func runLayout(r *mc.Run) {
	r.Note("layout_queries", int64(len(layoutQueries)))
	// Every query is judged in one part for each kind of space, and in
	// one for everything else
	parts := len(spaces) + 1
	r.Par(len(layoutQueries)*parts, func(w *mc.W, ix int) {
		i, part := ix/parts, ix%parts
		base := layoutQueries[i]
		ordered := strings.Contains(base, "ORDER BY")
		var want string
		if part == 0 {
			w.Case("layout base "+base, func() string {
				var err error
				want, err = meaning(r, base, ordered)
				if err != nil {
					return "does not parse: " + err.Error()
				}
				if strings.HasPrefix(want, "error") || strings.HasPrefix(want, "panic") || strings.HasPrefix(want, "bad") {
					return "gives " + want
				}
				return ""
			})
		}
		if want == "" {
			if want, _ = meaning(r, base, ordered); want == "" {
				return
			}
		}
		check := func(text string, must bool) {
			w.Case("layout "+text, func() string {
				got, err := meaning(r, text, ordered)
				if err != nil {
					if must || isPanic(err) {
						return "does not parse: " + err.Error()
					}
					return ""
				}
				r.State(text)
				if got != want {
					return "gives\n    " + got + "\n  without the change\n    " + want
				}
				return ""
			})
		}
		toks := gaps(base)
		join := func(sep func(k int) string) string {
			s := ""
			for k, t := range toks {
				if k > 0 {
					s += sep(k)
				}
				s += t
			}
			return s
		}
		for n, sp := range spaces {
			if n+1 != part {
				continue
			}
			if strings.HasPrefix(sp, "/") && strings.Contains(base, " / ") {
				// It would make a comment with the operator
				sp = " " + sp
			}
			for k := 1; k < len(toks); k++ {
				if !r.Thorough && !eachGap[sp] && k%4 != n%4 {
					continue
				}
				if sp == "" && glue(toks[k-1], toks[k]) {
					continue
				}
				check(join(func(j int) string {
					if j == k {
						return sp
					}
					return " "
				}), sp != "")
			}
			if sp != "" {
				check(join(func(int) string { return sp }), true)
			}
			// Before and after
			check(sp+base, true)
			check(base+sp, true)
			check(base+sp+";", true)
			check(base+";"+sp, true)
			check(sp+base+sp+";"+sp, true)
		}
		if part != 0 {
			return
		}
		if r.Thorough {
			for k := 1; k < len(toks); k++ {
				for l := k + 1; l < len(toks); l++ {
					for _, sp := range []string{"\n", "/* c */", "// c\n"} {
						check(join(func(j int) string {
							if j == k || j == l {
								return sp
							}
							return " "
						}), true)
					}
				}
			}
		}
		// All the gaps that can be left out
		check(join(func(k int) string {
			if glue(toks[k-1], toks[k]) || keyword(toks[k]) || keyword(toks[k-1]) {
				return " "
			}
			return ""
		}), true)
		check(base+" //", true)
		check(base+"// the end", true)
		check(base+"/* the end */", true)
		// Letter case
		mixed := func(t string) string {
			s := ""
			for k, c := range t {
				if k%2 == 1 {
					s += strings.ToLower(string(c))
				} else {
					s += string(c)
				}
			}
			return s
		}
		for _, f := range []func(string) string{strings.ToLower, mixed, strings.Title, func(t string) string { return t[:1] + strings.ToLower(t[1:]) }, func(t string) string { return strings.ToLower(t[:1]) + t[1:] }} {
			all := append([]string{}, toks...)
			any := false
			for k := range toks {
				if !keyword(toks[k]) {
					continue
				}
				any = true
				one := append([]string{}, toks...)
				one[k], all[k] = f(toks[k]), f(toks[k])
				check(strings.Join(one, " "), true)
			}
			if any {
				check(strings.Join(all, " "), true)
			}
		}
		// Names in backticks
		for k, t := range toks {
			if len(t) == 1 && t[0] >= 'a' && t[0] <= 'z' {
				one := append([]string{}, toks...)
				one[k] = "`" + t + "`"
				check(strings.Join(one, " "), true)
			}
		}
		// Other arrows
		if strings.Contains(base, ") -") || strings.Contains(base, ") <") {
			for k, t := range toks {
				var alt []string
				switch t {
				case "-":
					alt = dashes
				case "<":
					alt = lefts
				case ">":
					alt = rights
				}
				for _, a := range alt {
					one := append([]string{}, toks...)
					one[k] = a
					check(strings.Join(one, " "), true)
				}
			}
			for _, d := range dashes {
				for k := range lefts {
					check(strings.NewReplacer(" - ", " "+d+" ", " < ", " "+lefts[k]+" ", " > ", " "+rights[k]+" ").Replace(strings.Replace(base, " - - ", " - "+d+" ", -1)), true)
				}
			}
		}
	})
	r.Seq(func(w *mc.W) {
		for _, c := range commentDefect {
			for _, q := range []string{"RETURN" + c + "1 AS x", "RETURN 1 AS x" + c, c + "RETURN 1 AS x"} {
				w.Case("comment "+q, func() string {
					got, err := meaning(r, q, false)
					if err != nil {
						return "does not parse: " + err.Error()
					}
					if want, _ := meaning(r, "RETURN 1 AS x", false); got != want {
						return "gives " + got
					}
					return ""
				})
			}
		}
		w.Case("comment RETURN 1 AS x/* a **/, 2 AS y /* b */", func() string {
			got, err := meaning(r, "RETURN 1 AS x/* a **/, 2 AS y /* b */", false)
			if err != nil {
				return "does not parse: " + err.Error()
			}
			if want, _ := meaning(r, "RETURN 1 AS x, 2 AS y", false); got != want {
				return "gives " + got
			}
			return ""
		})
	})
	runParens(r)
}

func runParens(r *mc.Run) {
	// The marks are around subexpressions that can be put into
	// parentheses
	exprs := []string{
		"«1»+««2»*«3»»", "«««1»-«2»»-«3»»", "«««8»/«4»»/«2»»", "«««2»^«3»»^«2»»", "««-«2»»^«2»»", "«««1»+««6»/«3»»»-««5»%«3»»»",
		"««TRUE» OR ««FALSE» AND «FALSE»»»", "««NOT «FALSE»» AND «TRUE»»", "««TRUE» XOR ««TRUE» AND «FALSE»»»", "«««TRUE» XOR «TRUE»» OR «TRUE»»", "«NOT ««1»=«2»»»", "«««1»+«1»»=«2»»", "«««1»>«2»» OR ««2»>«1»»»",
		"«««[1,2]»[«0»]»+«1»»", "««1» IN «[«1»,«2»]»»", "««'a'» STARTS WITH «'a'»»", "««$v» IS NULL»", "«size(«[«1»,«$v»]»)»", "«CASE WHEN ««1»<«2»» THEN ««1»+«1»» ELSE «3» END»", "««{a:«1»}» IS NOT NULL»", "«-«-«1»»»", "««-«$v»»*«2»»", "«[«1»,«2»,«3»][«1»..«3»]»", "««'ab'» CONTAINS «'b'»»", "«left(«'abc'»,««1»+«1»»)»", "«CASE «$v» WHEN «4» THEN «'four'» END»",
	}
	r.Note("parenthesised_expressions", int64(len(exprs)))
	r.Par(len(exprs), func(w *mc.W, i int) {
		e := exprs[i]
		plain := strings.NewReplacer("«", "", "»", "").Replace(e)
		n := strings.Count(e, "«")
		want, err := meaning(r, "RETURN "+plain+" AS x", false)
		if err != nil {
			w.Fail("parentheses "+plain, "does not parse: "+err.Error())
			return
		}
		for mask := 0; mask < 1<<n; mask++ {
			for _, open := range []string{"(", "((", "( "} {
				shut := strings.Replace(strings.Replace(open, "((", "))", 1), "(", ")", 1)
				if open == "( " {
					shut = " )"
				}
				if mask == 0 && open != "(" || open != "(" && n > 4 && mask&(mask-1) != 0 {
					continue
				}
				s := ""
				k := 0
				var stack []bool
				for _, c := range e {
					switch c {
					case '«':
						on := mask>>k&1 == 1
						k++
						stack = append(stack, on)
						if on {
							s += open
						}
					case '»':
						if stack[len(stack)-1] {
							s += shut
						}
						stack = stack[:len(stack)-1]
					default:
						s += string(c)
					}
				}
				w.Case("parentheses "+s, func() string {
					got, err := meaning(r, "RETURN "+s+" AS x", false)
					if err != nil {
						return "does not parse: " + err.Error()
					}
					r.State(s)
					if got != want {
						return fmt.Sprintf("gives %s, without parentheses %s", got, want)
					}
					return ""
				})
			}
		}
	})
}
