package ref

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
)

// St is the status of an evaluation
type St int

const (
	OK     St = iota // the value is defined
	ERR              // the implementation must report an error
	UNSPEC           // not specified: any value or error, but no crash
)

// Env gives values to variables and parameters
type Env struct {
	G      *Graph
	Vars   map[string]V
	Params map[string]V
}

type Expr interface {
	// Str prints the expression
	Str() string
	// Prec is the binding strength, see below
	Prec() int
	Eval(*Env) (V, St)
}

const (
	pOr = iota + 1
	pXor
	pAnd
	pNot
	pCmp
	pAdd
	pMul
	pPow
	pUnary
	pPost
	pProp
	pAtom
)

func par(e Expr, min int) string {
	if e.Prec() < min {
		return "(" + e.Str() + ")"
	}
	return e.Str()
}

// Lit is a literal
type Lit struct{ V V }

func QuoteName(s string) string {
	plain := len(s) > 0
	for i, c := range s {
		if !(c == '_' || c < 128 && unicode.IsLetter(c) || (i > 0 && c < 128 && unicode.IsDigit(c))) {
			plain = false
		}
	}
	if plain {
		return s
	}
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

func LitStr(v V) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case int:
		return strconv.Itoa(x)
	case float64:
		s := strconv.FormatFloat(x, 'f', -1, 64)
		if len(s) > 25 {
			s = strings.Replace(strconv.FormatFloat(x, 'e', -1, 64), "e+", "e", 1)
		}
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	case bool:
		return strconv.FormatBool(x)
	case string:
		b := strings.Builder{}
		b.WriteByte('\'')
		for _, c := range x {
			if c == '\\' || c == '\'' {
				b.WriteByte('\\')
			}
			b.WriteRune(c)
		}
		b.WriteByte('\'')
		return b.String()
	case List:
		var p []string
		for _, e := range x {
			p = append(p, LitStr(e))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case Map:
		var p []string
		for _, k := range sortedKeys(x) {
			p = append(p, QuoteName(k)+": "+LitStr(x[k]))
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	panic(fmt.Sprintf("no literal for %T", v))
}

func (l Lit) Str() string { return LitStr(l.V) }
func (l Lit) Prec() int {
	switch x := l.V.(type) {
	case int:
		if x < 0 {
			return pUnary
		}
	case float64:
		if x < 0 {
			return pUnary
		}
	}
	return pAtom
}
func (l Lit) Eval(*Env) (V, St) { return l.V, OK }

// Txt is a literal with explicit text
type Txt struct {
	T string
	V V
}

func (t Txt) Str() string       { return t.T }
func (t Txt) Prec() int         { return pAtom }
func (t Txt) Eval(*Env) (V, St) { return t.V, OK }

// Var is a variable
type Var string

func (v Var) Str() string { return QuoteName(string(v)) }
func (v Var) Prec() int   { return pAtom }
func (v Var) Eval(e *Env) (V, St) {
	x, ok := e.Vars[string(v)]
	if !ok {
		return nil, ERR
	}
	return x, OK
}

// Param is a parameter, without the dollar sign
type Param string

func (p Param) Str() string { return "$" + string(p) }
func (p Param) Prec() int   { return pAtom }
func (p Param) Eval(e *Env) (V, St) {
	x, ok := e.Params[string(p)]
	if !ok {
		return nil, ERR
	}
	return x, OK
}

// Prop is a property access
type Prop struct {
	E Expr
	K string
}

func (p Prop) Str() string { return par(p.E, pProp) + "." + QuoteName(p.K) }
func (p Prop) Prec() int   { return pProp }
func (p Prop) Eval(e *Env) (V, St) {
	x, st := p.E.Eval(e)
	if st != OK {
		return nil, st
	}
	return GetProp(e.G, x, p.K)
}

func GetProp(g *Graph, x V, k string) (V, St) {
	switch v := x.(type) {
	case nil:
		return nil, OK
	case NodeID:
		n := g.Nodes[v]
		if n == nil {
			return nil, UNSPEC
		}
		return n.Props[k], OK
	case EdgeID:
		n := g.Edges[v]
		if n == nil {
			return nil, UNSPEC
		}
		return n.Props[k], OK
	case PathV:
		if len(v) == 1 {
			return GetProp(g, v[0], k)
		}
		return nil, UNSPEC
	case Map:
		return nil, UNSPEC
	}
	return nil, ERR
}

// List and map constructors
type ListX []Expr

func (l ListX) Str() string {
	var p []string
	for _, e := range l {
		p = append(p, e.Str())
	}
	return "[" + strings.Join(p, ", ") + "]"
}
func (l ListX) Prec() int { return pAtom }
func (l ListX) Eval(e *Env) (V, St) {
	ret := List{}
	for _, x := range l {
		v, st := x.Eval(e)
		if st != OK {
			return nil, st
		}
		ret = append(ret, v)
	}
	return ret, OK
}

type KV struct {
	K string
	E Expr
}
type MapX []KV

func (m MapX) Str() string {
	var p []string
	for _, e := range m {
		p = append(p, QuoteName(e.K)+": "+e.E.Str())
	}
	return "{" + strings.Join(p, ", ") + "}"
}
func (m MapX) Prec() int { return pAtom }
func (m MapX) Eval(e *Env) (V, St) {
	ret := Map{}
	for _, x := range m {
		v, st := x.E.Eval(e)
		if st != OK {
			return nil, st
		}
		ret[x.K] = v
	}
	return ret, OK
}

// Bin is a left associative binary operator
type Bin struct {
	Op   string
	A, B Expr
}

var binPrec = map[string]int{"OR": pOr, "XOR": pXor, "AND": pAnd, "+": pAdd, "-": pAdd, "*": pMul, "/": pMul, "%": pMul, "^": pPow,
	"STARTS WITH": pPost, "ENDS WITH": pPost, "CONTAINS": pPost, "IN": pPost}

func (b Bin) Prec() int { return binPrec[b.Op] }
func (b Bin) Str() string {
	p := b.Prec()
	if p == pPost {
		return par(b.A, pPost) + " " + b.Op + " " + par(b.B, pProp)
	}
	return par(b.A, p) + " " + b.Op + " " + par(b.B, p+1)
}

func (b Bin) Eval(e *Env) (V, St) {
	x, s1 := b.A.Eval(e)
	switch b.Op {
	case "AND", "OR", "XOR":
		y, s2 := b.B.Eval(e)
		return Logic(b.Op, x, s1, y, s2)
	}
	if s1 != OK {
		return nil, s1
	}
	y, s2 := b.B.Eval(e)
	if s2 == ERR && x == nil {
		return nil, UNSPEC
	}
	if s2 != OK {
		return nil, s2
	}
	switch b.Op {
	case "STARTS WITH", "ENDS WITH", "CONTAINS":
		s, ok1 := x.(string)
		t, ok2 := y.(string)
		if !ok1 || !ok2 {
			if x == nil || y == nil {
				return nil, UNSPEC
			}
			return nil, ERR
		}
		switch b.Op {
		case "STARTS WITH":
			return len(s) >= len(t) && s[:len(t)] == t, OK
		case "ENDS WITH":
			return len(s) >= len(t) && s[len(s)-len(t):] == t, OK
		}
		return strings.Contains(s, t), OK
	case "IN":
		return In(x, y)
	}
	return Arith(b.Op, x, y)
}

func tv(v V) (int, bool) { // 1 true 0 false 2 null
	switch x := v.(type) {
	case nil:
		return 2, true
	case bool:
		if x {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// Logic is three valued logic. If one of the operands fails or is not a
// boolean the result is an error, unless the other operand decides it
func Logic(op string, x V, s1 St, y V, s2 St) (V, St) {
	a, okA := tv(x)
	b, okB := tv(y)
	bad := s1 != OK || s2 != OK || !okA || !okB
	if bad {
		if s1 == UNSPEC || s2 == UNSPEC {
			return nil, UNSPEC
		}
		dec := func(t int, st St, ok bool) bool {
			if st != OK || !ok {
				return false
			}
			switch op {
			case "AND":
				return t == 0
			case "OR":
				return t == 1
			}
			return t == 2 // null XOR anything
		}
		if dec(a, s1, okA) || dec(b, s2, okB) {
			return nil, UNSPEC
		}
		return nil, ERR
	}
	switch op {
	case "AND":
		if a == 0 || b == 0 {
			return false, OK
		}
		if a == 2 || b == 2 {
			return nil, OK
		}
		return true, OK
	case "OR":
		if a == 1 || b == 1 {
			return true, OK
		}
		if a == 2 || b == 2 {
			return nil, OK
		}
		return false, OK
	}
	if a == 2 || b == 2 {
		return nil, OK
	}
	return a != b, OK
}

// Not is boolean negation
type Not struct{ E Expr }

func (n Not) Prec() int   { return pNot }
func (n Not) Str() string { return "NOT " + par(n.E, pNot) }
func (n Not) Eval(e *Env) (V, St) {
	x, st := n.E.Eval(e)
	if st != OK {
		return nil, st
	}
	switch v := x.(type) {
	case nil:
		return nil, OK
	case bool:
		return !v, OK
	}
	return nil, ERR
}

// Neg is the unary minus
type Neg struct{ E Expr }

func (n Neg) Prec() int { return pUnary }
func (n Neg) Str() string {
	s := par(n.E, pUnary)
	if strings.HasPrefix(s, "-") {
		return "- " + s
	}
	return "-" + s
}
func (n Neg) Eval(e *Env) (V, St) {
	x, st := n.E.Eval(e)
	if st != OK {
		return nil, st
	}
	switch v := x.(type) {
	case nil:
		return nil, OK
	case int:
		return -v, OK
	case float64:
		return -v, OK
	}
	return nil, ERR
}

// Cmp is a comparison chain
type Cmp struct {
	First Expr
	Ops   []string
	Rest  []Expr
}

func C1(op string, a, b Expr) Cmp { return Cmp{First: a, Ops: []string{op}, Rest: []Expr{b}} }

func (c Cmp) Prec() int { return pCmp }
func (c Cmp) Str() string {
	s := par(c.First, pAdd)
	for i := range c.Ops {
		s += " " + c.Ops[i] + " " + par(c.Rest[i], pAdd)
	}
	return s
}
func (c Cmp) Eval(e *Env) (V, St) {
	var vals []V
	hasNull, failed, unspec := false, false, false
	for _, x := range append([]Expr{c.First}, c.Rest...) {
		v, st := x.Eval(e)
		switch st {
		case ERR:
			failed = true
		case UNSPEC:
			unspec = true
		default:
			if v == nil {
				hasNull = true
			}
		}
		vals = append(vals, v)
	}
	if unspec {
		return nil, UNSPEC
	}
	if failed {
		if hasNull || len(vals) > 2 {
			return nil, UNSPEC
		}
		return nil, ERR
	}
	result := true
	for i := range c.Ops {
		if vals[i] == nil || vals[i+1] == nil {
			continue
		}
		r, ok := Compare(vals[i], vals[i+1])
		if !ok {
			return nil, UNSPEC
		}
		if !cmpHolds(c.Ops[i], r) {
			result = false
		}
	}
	if hasNull {
		if !result {
			// null or false
			return nil, UNSPEC
		}
		return nil, OK
	}
	return result, OK
}

func cmpHolds(op string, r int) bool {
	switch op {
	case "=":
		return r == 0
	case "<>":
		return r != 0
	case "<":
		return r < 0
	case "<=":
		return r <= 0
	case ">":
		return r > 0
	}
	return r >= 0
}

func In(x, y V) (V, St) {
	if y == nil {
		return nil, OK
	}
	l, ok := y.(List)
	if !ok {
		return nil, ERR
	}
	if len(l) == 0 {
		return false, OK
	}
	if x == nil {
		return nil, OK
	}
	hasNull := false
	for _, e := range l {
		if e == nil {
			hasNull = true
			continue
		}
		c, ok := Compare(x, e)
		if !ok {
			return nil, UNSPEC
		}
		if c == 0 {
			// Only if no incomparable element precedes or follows
			for _, f := range l {
				if f != nil {
					if _, ok := Compare(x, f); !ok {
						return nil, UNSPEC
					}
				}
			}
			return true, OK
		}
	}
	if hasNull {
		return nil, OK
	}
	return false, OK
}

// IsNull is IS NULL or IS NOT NULL
type IsNull struct {
	E   Expr
	Not bool
}

func (n IsNull) Prec() int { return pPost }
func (n IsNull) Str() string {
	if n.Not {
		return par(n.E, pPost) + " IS NOT NULL"
	}
	return par(n.E, pPost) + " IS NULL"
}
func (n IsNull) Eval(e *Env) (V, St) {
	x, st := n.E.Eval(e)
	if st != OK {
		return nil, st
	}
	return (x == nil) != n.Not, OK
}

// Index is list indexing
type Index struct{ E, I Expr }

func (n Index) Prec() int   { return pPost }
func (n Index) Str() string { return par(n.E, pPost) + "[" + n.I.Str() + "]" }
func (n Index) Eval(e *Env) (V, St) {
	x, s1 := n.E.Eval(e)
	if s1 != OK {
		return nil, s1
	}
	l, isList := x.(List)
	if !isList && x != nil {
		return nil, ERR
	}
	y, s2 := n.I.Eval(e)
	if s2 == ERR && x == nil {
		return nil, UNSPEC
	}
	if s2 != OK {
		return nil, s2
	}
	if y == nil {
		return nil, OK
	}
	i, ok := y.(int)
	if !ok {
		if x == nil {
			return nil, UNSPEC
		}
		return nil, ERR
	}
	if x == nil {
		return nil, OK
	}
	if i < 0 {
		i += len(l)
	}
	if i < 0 || i >= len(l) {
		return nil, OK
	}
	return l[i], OK
}

// Slice is a list slice; From and To may be nil
type Slice struct{ E, From, To Expr }

func (n Slice) Prec() int { return pPost }
func (n Slice) Str() string {
	s := par(n.E, pPost) + "["
	if n.From != nil {
		s += n.From.Str()
	}
	s += ".."
	if n.To != nil {
		s += n.To.Str()
	}
	return s + "]"
}
func (n Slice) Eval(e *Env) (V, St) {
	x, s1 := n.E.Eval(e)
	if s1 != OK {
		return nil, s1
	}
	l, isList := x.(List)
	if !isList && x != nil {
		return nil, ERR
	}
	bounds := []int{0, len(l)}
	null := x == nil
	bad := false
	for i, b := range []Expr{n.From, n.To} {
		if b == nil {
			continue
		}
		v, st := b.Eval(e)
		if st == UNSPEC {
			return nil, UNSPEC
		}
		if st == ERR {
			bad = true
			continue
		}
		if v == nil {
			null = true
			continue
		}
		k, ok := v.(int)
		if !ok || k < 0 {
			bad = true
			continue
		}
		bounds[i] = k
	}
	if bad {
		if null {
			return nil, UNSPEC
		}
		return nil, ERR
	}
	if null {
		return nil, OK
	}
	ret := List{}
	for i := range l {
		if i >= bounds[0] && i < bounds[1] {
			ret = append(ret, l[i])
		}
	}
	return ret, OK
}

// Case is a CASE expression
type Case struct {
	Test Expr
	When []Expr
	Then []Expr
	Else Expr
}

func (c Case) Prec() int { return pAtom }
func (c Case) Str() string {
	s := "CASE"
	if c.Test != nil {
		s += " " + c.Test.Str()
	}
	for i := range c.When {
		s += " WHEN " + c.When[i].Str() + " THEN " + c.Then[i].Str()
	}
	if c.Else != nil {
		s += " ELSE " + c.Else.Str()
	}
	return s + " END"
}
func (c Case) Eval(e *Env) (V, St) {
	var test V
	if c.Test != nil {
		v, st := c.Test.Eval(e)
		if st != OK {
			return nil, st
		}
		test = v
	}
	for i := range c.When {
		w, st := c.When[i].Eval(e)
		if st != OK {
			return nil, st
		}
		match := false
		if c.Test != nil {
			if test == nil || w == nil {
				continue
			}
			r, ok := Compare(test, w)
			if !ok {
				return nil, UNSPEC
			}
			match = r == 0
		} else {
			if w == nil {
				continue
			}
			b, ok := w.(bool)
			if !ok {
				return nil, ERR
			}
			match = b
		}
		if match {
			return c.Then[i].Eval(e)
		}
	}
	if c.Else != nil {
		return c.Else.Eval(e)
	}
	return nil, OK
}

// Arith is a binary arithmetic operator, including the concatenations
func Arith(op string, x, y V) (V, St) {
	if x == nil || y == nil {
		return nil, OK
	}
	if op == "^" {
		a, ok1 := num(x)
		b, ok2 := num(y)
		if !ok1 || !ok2 {
			return nil, ERR
		}
		return math.Pow(a, b), OK
	}
	i, okI := x.(int)
	j, okJ := y.(int)
	if okI && okJ {
		switch op {
		case "+":
			return i + j, OK
		case "-":
			return i - j, OK
		case "*":
			return i * j, OK
		}
		if j == 0 {
			return nil, ERR
		}
		if j == -1 {
			if op == "/" {
				return -i, OK
			}
			return 0, OK
		}
		if op == "/" {
			return i / j, OK
		}
		return i % j, OK
	}
	a, ok1 := num(x)
	b, ok2 := num(y)
	if ok1 && ok2 {
		switch op {
		case "+":
			return a + b, OK
		case "-":
			return a - b, OK
		case "*":
			return a * b, OK
		}
		if b == 0 {
			return nil, ERR
		}
		if op == "/" {
			return a / b, OK
		}
		return math.Mod(a, b), OK
	}
	switch p := x.(type) {
	case string:
		if q, ok := y.(string); ok && op == "+" {
			return p + q, OK
		}
	case List:
		if q, ok := y.(List); ok && op == "+" {
			ret := List{}
			ret = append(ret, p...)
			ret = append(ret, q...)
			return ret, OK
		}
	}
	if v, st := temporalArith(op, x, y); st == OK || st == UNSPEC {
		return v, st
	}
	return nil, ERR
}

func num(v V) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// Call is a function call
type Call struct {
	F    string
	Args []Expr
}

func (c Call) Prec() int { return pAtom }
func (c Call) Str() string {
	var p []string
	for _, a := range c.Args {
		p = append(p, a.Str())
	}
	return c.F + "(" + strings.Join(p, ", ") + ")"
}
func (c Call) Eval(e *Env) (V, St) {
	args := make([]V, len(c.Args))
	for i, a := range c.Args {
		v, st := a.Eval(e)
		if st != OK {
			return nil, st
		}
		args[i] = v
	}
	return CallFunc(e, c.F, args)
}
