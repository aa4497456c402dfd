// Package grammar decides by the published grammar of the language
// whether a text is a query. It interprets the grammar; it shares no
// code with the generated parser.
package grammar

import (
	_ "embed"
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

//go:embed Cypher.g4
var text string

// node is an element of the right side of a rule
type node struct {
	kind byte // 's' sequence, 'a' alternatives, 'l' literal, 'r' rule, 'c' character set, 'e' end of input
	sub  []*node
	rep  byte // 0, '?', '*' or '+'
	lit  []rune
	name string
	neg  bool
	set  func(rune) bool
	tok  int // token type of a literal or of a lexer rule, used by the parser
	rule *rule
}

type rule struct {
	name     string
	fragment bool
	body     *node
	id       int
}

type Grammar struct {
	rules  map[string]*rule
	order  []*rule
	lexers []*rule
	tokens map[string]int // token types
	// start[i][c] is set if the i-th token may start with c
	start [][128]bool
}

// New reads the grammar
func New() *Grammar {
	g := &Grammar{rules: map[string]*rule{}, tokens: map[string]int{}}
	toks := scan(text)
	p := &g4{toks: toks, g: g}
	for p.i < len(p.toks) {
		p.rule()
	}
	var lits []string
	seen := map[string]bool{}
	var walk func(n *node, inParser bool)
	walk = func(n *node, inParser bool) {
		if n.kind == 'l' && inParser && !seen[string(n.lit)] {
			seen[string(n.lit)] = true
			lits = append(lits, string(n.lit))
		}
		if n.kind == 'r' {
			n.rule = g.rules[n.name]
			if n.rule == nil {
				panic("no rule " + n.name)
			}
		}
		for _, s := range n.sub {
			walk(s, inParser)
		}
	}
	for _, r := range g.order {
		walk(r.body, !isLexer(r.name))
	}
	// Literals of the parser rules come before the lexer rules
	for _, l := range lits {
		r := &rule{name: "'" + l + "'", body: &node{kind: 'l', lit: []rune(l)}, id: len(g.order)}
		g.order = append(g.order, r)
		g.tokens[r.name] = len(g.lexers)
		g.lexers = append(g.lexers, r)
	}
	for _, r := range g.order {
		if isLexer(r.name) && !r.fragment {
			g.tokens[r.name] = len(g.lexers)
			g.lexers = append(g.lexers, r)
		}
	}
	for _, r := range g.lexers {
		var f [128]bool
		first(r.body, &f)
		g.start = append(g.start, f)
	}
	return g
}

// first finds the ASCII characters a text of n may start with; it
// returns if n may be empty
func first(n *node, f *[128]bool) bool {
	empty := false
	switch n.kind {
	case 'l':
		if n.lit[0] < 128 {
			f[n.lit[0]] = true
		}
	case 'c':
		for c := range f {
			if n.set(rune(c)) != n.neg {
				f[c] = true
			}
		}
	case 'e':
		empty = true
	case 'r':
		empty = first(n.rule.body, f)
	case 'a':
		for _, s := range n.sub {
			if first(s, f) {
				empty = true
			}
		}
	case 's':
		empty = true
		for _, s := range n.sub {
			if !first(s, f) {
				empty = false
				break
			}
		}
	}
	return empty || n.rep == '?' || n.rep == '*'
}

func isLexer(name string) bool { return name[0] >= 'A' && name[0] <= 'Z' }

// scan splits the grammar into its symbols
func scan(s string) []string {
	var out []string
	r := []rune(s)
	for i := 0; i < len(r); {
		c := r[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '/' && r[i+1] == '*':
			for !(r[i] == '*' && r[i+1] == '/') {
				i++
			}
			i += 2
		case c == '/' && r[i+1] == '/':
			for r[i] != '\n' {
				i++
			}
		case c == '\'' || c == '[':
			end := '\''
			if c == '[' {
				end = ']'
			}
			j := i + 1
			for r[j] != end {
				if r[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, string(r[i:j+1]))
			i = j + 1
		case c == '_' || unicode.IsLetter(c):
			j := i
			for r[j] == '_' || unicode.IsLetter(r[j]) || unicode.IsDigit(r[j]) {
				j++
			}
			out = append(out, string(r[i:j]))
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

type g4 struct {
	toks []string
	i    int
	g    *Grammar
}

func (p *g4) next() string { p.i++; return p.toks[p.i-1] }

func (p *g4) rule() {
	r := &rule{}
	t := p.next()
	if t == "grammar" {
		p.i += 2
		return
	}
	if t == "fragment" {
		r.fragment = true
		t = p.next()
	}
	r.name = t
	if x := p.next(); x != ":" {
		panic("expected : after " + t + ", got " + x)
	}
	r.body = p.alts()
	if x := p.next(); x != ";" {
		panic("expected ; after " + t + ", got " + x)
	}
	r.id = len(p.g.order)
	p.g.rules[r.name] = r
	p.g.order = append(p.g.order, r)
}

func (p *g4) alts() *node {
	a := &node{kind: 'a'}
	for {
		s := &node{kind: 's'}
		for p.toks[p.i] != "|" && p.toks[p.i] != ";" && p.toks[p.i] != ")" {
			s.sub = append(s.sub, p.elem())
		}
		a.sub = append(a.sub, s)
		if p.toks[p.i] != "|" {
			break
		}
		p.i++
	}
	if len(a.sub) == 1 {
		return a.sub[0]
	}
	return a
}

func (p *g4) elem() *node {
	t := p.next()
	var n *node
	switch {
	case t == "(":
		x := p.alts()
		n = &node{kind: 's', sub: []*node{x}}
		if x := p.next(); x != ")" {
			panic("expected ), got " + x)
		}
	case t == "~":
		n = charSet(p.next())
		n.neg = true
	case t[0] == '\'':
		n = &node{kind: 'l', lit: unquote(t[1 : len(t)-1])}
	case t[0] == '[':
		n = charSet(t)
	case t == "EOF":
		n = &node{kind: 'e'}
	default:
		n = &node{kind: 'r', name: t}
	}
	if p.i < len(p.toks) {
		switch x := p.toks[p.i]; x {
		case "?", "*", "+":
			p.i++
			n.rep = x[0]
		}
	}
	return n
}

func unquote(s string) []rune {
	var out []rune
	r := []rune(s)
	for i := 0; i < len(r); i++ {
		if r[i] != '\\' {
			out = append(out, r[i])
			continue
		}
		i++
		switch r[i] {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'f':
			out = append(out, '\f')
		case 'u':
			x, err := strconv.ParseUint(string(r[i+1:i+5]), 16, 32)
			if err != nil {
				panic(err)
			}
			out = append(out, rune(x))
			i += 4
		default:
			out = append(out, r[i])
		}
	}
	return out
}

func charSet(t string) *node {
	n := &node{kind: 'c'}
	body := t[1 : len(t)-1]
	switch body {
	case `\p{ID_Start}`:
		n.set = idStart
	case `\p{ID_Continue}`:
		n.set = idContinue
	case `\p{Sc}`:
		n.set = func(r rune) bool { return unicode.Is(unicode.Sc, r) }
	case `\p{Pc}`:
		n.set = func(r rune) bool { return unicode.Is(unicode.Pc, r) }
	default:
		m := map[rune]bool{}
		for _, r := range unquote(body) {
			m[r] = true
		}
		n.set = func(r rune) bool { return m[r] }
	}
	return n
}

func idStart(r rune) bool {
	return (unicode.IsLetter(r) || unicode.Is(unicode.Nl, r) || unicode.Is(unicode.Other_ID_Start, r)) && !unicode.Is(unicode.Pattern_Syntax, r) && !unicode.Is(unicode.Pattern_White_Space, r)
}

func idContinue(r rune) bool {
	return (idStart(r) || unicode.In(r, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue)) && !unicode.Is(unicode.Pattern_Syntax, r) && !unicode.Is(unicode.Pattern_White_Space, r)
}

// matcher finds the ends of rules in the characters
type lexing struct {
	in   []rune
	memo memo
}

// memo remembers the ends of a rule at a position
type memo struct {
	n    int
	m    [][]int
	done []bool
}

func newMemo(rules, positions int) memo {
	return memo{positions + 1, make([][]int, rules*(positions+1)), make([]bool, rules*(positions+1))}
}

func (m *memo) get(r, at int) ([]int, bool) { return m.m[r*m.n+at], m.done[r*m.n+at] }
func (m *memo) put(r, at int, v []int)      { m.m[r*m.n+at], m.done[r*m.n+at] = v, true }

func addInt(s []int, x int) []int {
	for _, y := range s {
		if y == x {
			return s
		}
	}
	return append(s, x)
}

func (l *lexing) ends(n *node, at int) []int {
	one := func(i int) []int {
		switch n.kind {
		case 'l':
			if i+len(n.lit) > len(l.in) {
				return nil
			}
			for k, c := range n.lit {
				if l.in[i+k] != c {
					return nil
				}
			}
			return []int{i + len(n.lit)}
		case 'c':
			if i < len(l.in) && n.set(l.in[i]) != n.neg {
				return []int{i + 1}
			}
			return nil
		case 'e':
			if i == len(l.in) {
				return []int{i}
			}
			return nil
		case 'r':
			if r, ok := l.memo.get(n.rule.id, i); ok {
				return r
			}
			r := l.ends(n.rule.body, i)
			l.memo.put(n.rule.id, i, r)
			return r
		case 'a':
			var out []int
			for _, s := range n.sub {
				for _, e := range l.ends(s, i) {
					out = addInt(out, e)
				}
			}
			return out
		}
		cur := []int{i}
		for _, s := range n.sub {
			var next []int
			for _, c := range cur {
				for _, e := range l.ends(s, c) {
					next = addInt(next, e)
				}
			}
			if cur = next; len(cur) == 0 {
				return nil
			}
		}
		return cur
	}
	return repeat(n.rep, at, one)
}

func repeat(rep byte, at int, one func(int) []int) []int {
	switch rep {
	case 0:
		return one(at)
	case '?':
		return addInt(append([]int{}, one(at)...), at)
	}
	var out []int
	seen := map[int]bool{}
	work := one(at)
	if rep == '*' {
		out = append(out, at)
		seen[at] = true
	}
	work = append([]int{}, work...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
		work = append(work, one(x)...)
	}
	return out
}

// Token is a token of the text
type Token struct {
	Type int
	Text string
}

// Lex splits text into tokens; ok is false if it cannot be
func (g *Grammar) Lex(s string) (toks []Token, ok bool) {
	in := []rune(s)
	l := &lexing{in: in, memo: newMemo(len(g.order), len(in))}
	for at := 0; at < len(l.in); {
		best, typ := at, -1
		for i, r := range g.lexers {
			if c := l.in[at]; c < 128 && !g.start[i][c] {
				continue
			}
			for _, e := range l.ends(r.body, at) {
				if e > best {
					best, typ = e, i
				}
			}
		}
		if typ < 0 {
			return nil, false
		}
		toks = append(toks, Token{typ, string(l.in[at:best])})
		at = best
	}
	return toks, true
}

func (g *Grammar) TypeName(t int) string { return g.lexers[t].name }

type parsing struct {
	g    *Grammar
	toks []Token
	memo memo
	// uses are the rules that take part in some successful match of
	// their own, not necessarily in that of the whole
	uses map[string]bool
}

func (p *parsing) ends(n *node, at int) []int {
	one := func(i int) []int {
		switch n.kind {
		case 'l':
			if n.tok == 0 {
				n.tok = p.g.tokens["'"+string(n.lit)+"'"] + 1
			}
			if i < len(p.toks) && p.toks[i].Type == n.tok-1 {
				return []int{i + 1}
			}
			return nil
		case 'e':
			if i == len(p.toks) {
				return []int{i}
			}
			return nil
		case 'r':
			if isLexer(n.name) {
				if n.tok == 0 {
					n.tok = p.g.tokens[n.name] + 1
				}
				if i < len(p.toks) && p.toks[i].Type == n.tok-1 {
					return []int{i + 1}
				}
				return nil
			}
			if r, ok := p.memo.get(n.rule.id, i); ok {
				return r
			}
			r := p.ends(n.rule.body, i)
			p.memo.put(n.rule.id, i, r)
			if len(r) > 0 {
				p.uses[n.name] = true
			}
			return r
		case 'a':
			var out []int
			for _, s := range n.sub {
				for _, e := range p.ends(s, i) {
					out = addInt(out, e)
				}
			}
			return out
		}
		cur := []int{i}
		for _, s := range n.sub {
			var next []int
			for _, c := range cur {
				for _, e := range p.ends(s, c) {
					next = addInt(next, e)
				}
			}
			if cur = next; len(cur) == 0 {
				return nil
			}
		}
		return cur
	}
	return repeat(n.rep, at, one)
}

// Verdict is the judgement of a text
type Verdict struct {
	OK bool
	// Call is set if the text could contain a procedure call
	Call bool
	Toks []Token
}

// Query decides if the text is a query
func (g *Grammar) Query(s string) Verdict { return g.decide(s, "oC_Cypher", false) }

// Pattern decides if the text is a pattern expression
func (g *Grammar) Pattern(s string) Verdict { return g.decide(s, "oC_PatternPart", true) }

func (g *Grammar) decide(s, start string, trail bool) Verdict {
	toks, ok := g.Lex(s)
	if !ok {
		return Verdict{}
	}
	p := &parsing{g: g, toks: toks, memo: newMemo(len(g.order), len(toks)), uses: map[string]bool{}}
	r := g.rules[start]
	if r == nil {
		panic(fmt.Sprint("no rule ", start))
	}
	v := Verdict{Toks: toks}
	for _, e := range p.ends(r.body, 0) {
		for trail && e < len(toks) && strings.HasPrefix(g.TypeName(toks[e].Type), "SP") {
			e++
		}
		if e == len(toks) {
			v.OK = true
		}
	}
	v.Call = p.uses["oC_StandaloneCall"] || p.uses["oC_InQueryCall"]
	return v
}
