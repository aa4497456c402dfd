package checks

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/mc"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	mc.Register(&mc.Check{
		Prop: "C05", Level: "model_checking",
		Bounds: "all number texts up to 4 (thorough 5) characters of the alphabet and boundary values; all string literal bodies and all strings given to the escape helpers up to 3 (thorough 4) characters of the alphabets, in both quotes; all names up to 3 characters of the alphabet and all reserved words, in every position a name can take; every gap between two tokens of every query of the list with every kind of white space and comment, every letter case of every keyword, every subset of redundant parentheses" + sizeBounds,
		Assume: []string{"the names in the escape tests are not empty", "a gap without white space may be rejected, but must not change the meaning"},
		Fn:     runC05,
	})
}

// wordsOver gives all words of length 0..n over the alphabet
func wordsOver(alpha []string, min, n int) []string {
	var out []string
	cur := []string{""}
	for l := 0; ; l++ {
		if l >= min {
			out = append(out, cur...)
		}
		if l == n {
			return out
		}
		var next []string
		for _, p := range cur {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		cur = next
	}
}

var (
	reHex   = regexp.MustCompile(`^0x[0-9a-fA-F]+$`)
	reOct   = regexp.MustCompile(`^0[0-7]+$`)
	reDec   = regexp.MustCompile(`^(0|[1-9][0-9]*)$`)
	reFloat = regexp.MustCompile(`^([0-9]*\.[0-9]+|([0-9]+|[0-9]+\.[0-9]+|\.[0-9]+)[eE]-?[0-9]+)$`)
)

// numberValue gives the value of a number literal. ok is false if the
// text is none, and fits is false if its value cannot be represented
func numberValue(t string) (v ref.V, ok, fits bool) {
	base, digits := 0, t
	switch {
	case reHex.MatchString(t):
		base, digits = 16, t[2:]
	case reDec.MatchString(t):
		base = 10
	case reOct.MatchString(t):
		base = 8
	case reFloat.MatchString(t):
		r, good := new(big.Rat).SetString(fixDot(t))
		if !good {
			return nil, true, false
		}
		f, _ := r.Float64()
		return f, true, !math.IsInf(f, 0)
	default:
		return nil, false, false
	}
	n, good := new(big.Int).SetString(digits, base)
	if !good || !n.IsInt64() {
		return nil, true, false
	}
	return int(n.Int64()), true, true
}

func fixDot(t string) string {
	if strings.HasPrefix(t, ".") {
		return "0" + t
	}
	return t
}

// literalValue evaluates RETURN of one expression
func literalValue(text string) (v ref.V, parseErr, evalErr error) {
	q, err := sut.SafeParse("RETURN " + text + " AS v")
	if err != nil {
		return nil, err, nil
	}
	w := sut.NewWorld()
	o := w.Eval(q, w.Ctx(nil, nil))
	if o.Panic != "" || o.Bad != "" {
		return ref.Raw(o.String()), nil, nil
	}
	if o.Err != nil {
		return nil, nil, o.Err
	}
	if len(o.Rows) != 1 {
		return ref.Raw(o.String()), nil, nil
	}
	return o.Rows[0]["v"], nil, nil
}

func isPanic(err error) bool {
	_, ok := err.(sut.PanicError)
	return ok
}

// literals evaluates many literals at once; those that do not give the
// expected value are evaluated on their own
func literals(w *mc.W, texts []string, vals []ref.V) {
	const n = 32
	for i := 0; i < len(texts); i += n {
		j := i + n
		if j > len(texts) {
			j = len(texts)
		}
		if w.R.Stopped() {
			return
		}
		good := false
		if w.R.Only == "" {
			w.Case("literals from "+texts[i], func() string {
				v, pe, ee := literalValue("[" + strings.Join(texts[i:j], ", ") + "]")
				l, ok := v.(ref.List)
				if pe != nil || ee != nil || !ok || len(l) != j-i {
					return ""
				}
				good = true
				for k := range l {
					if ref.Key(l[k]) != ref.Key(vals[i+k]) {
						good = false
					}
				}
				return ""
			})
		}
		w.R.Trans(int64(j - i))
		for k := i; k < j; k++ {
			w.R.State(texts[k])
		}
		if good {
			continue
		}
		for k := i; k < j; k++ {
			t, want := texts[k], vals[k]
			w.Case("literal "+t, func() string {
				v, pe, ee := literalValue(t)
				if pe != nil || ee != nil {
					return fmt.Sprintf("fails: %v %v", pe, ee)
				}
				if ref.Key(v) != ref.Key(want) {
					return "is " + ref.Key(v) + ", expected " + ref.Key(want)
				}
				return ""
			})
		}
	}
}

// unescape gives the text of the body of a string literal; ok is false
// if it is not valid, spec is false if it is not specified
func unescape(body string, quote byte) (s string, ok, spec bool) {
	b := strings.Builder{}
	for i := 0; i < len(body); {
		c := body[i]
		if c == quote {
			return "", false, true
		}
		if c != '\\' {
			_, n := utf8.DecodeRuneInString(body[i:])
			b.WriteString(body[i : i+n])
			i += n
			continue
		}
		if i+1 == len(body) {
			return "", false, true
		}
		i += 2
		switch body[i-1] {
		case '\\', '\'', '"':
			b.WriteByte(body[i-1])
		case 'b', 'B':
			b.WriteByte(8)
		case 'f', 'F':
			b.WriteByte(12)
		case 'n', 'N':
			b.WriteByte(10)
		case 'r', 'R':
			b.WriteByte(13)
		case 't', 'T':
			b.WriteByte(9)
		case 'u', 'U':
			hex := 0
			for hex < 8 && i+hex < len(body) && strings.IndexByte("0123456789abcdefABCDEF", body[i+hex]) >= 0 {
				hex++
			}
			if hex < 4 {
				return "", false, true
			}
			n := 4
			if body[i-1] == 'U' {
				if hex >= 8 {
					n = 8
				} else {
					return "", true, false
				}
			}
			code, _ := strconv.ParseUint(body[i:i+n], 16, 64)
			if code > 0x10ffff || code >= 0xd800 && code < 0xe000 {
				return "", true, false
			}
			b.WriteRune(rune(code))
			i += n
		default:
			return "", false, true
		}
	}
	return b.String(), true, true
}

func runC05(r *mc.Run) {
	sizesC05(r)
	for _, f := range []func(*mc.Run){runNumbers, runStrings, runNames, runLayout} {
		t := time.Now()
		f(r)
		if os.Getenv("MC_TIMES") != "" {
			fmt.Fprintln(os.Stdout, time.Since(t))
		}
	}
}

func runNumbers(r *mc.Run) {
	n := 4
	if r.Thorough {
		n = 5
	}
	texts := wordsOver([]string{"0", "1", "7", "8", "a", "F", "x", ".", "e", "E"}, 1, n)
	texts = append(texts, wordsOver([]string{"0", "3", "9", ".", "e", "-"}, 1, n+1)...)
	texts = append(texts, "9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551615", "18446744073709551616", "99999999999999999999", "0x7fffffffffffffff", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "0x0000000000000000001", "0777777777777777777777", "01000000000000000000000", "0000000000000000000000000017",
		"1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "1e-5", "4.9e-324", "5e-324", "2e-324", "123456789.123456789", "0.1", "0.30000000000000004", "9007199254740993.0", "00.5", "08.5", "08e1", "2147483648", "4294967296", "1234567890", "0123", "0x10", "0xdeadBEEF", "1e10", "1E10", "1.5e3", ".5e1", "12.50")
	var good []string
	var vals []ref.V
	var bad []string
	for _, t := range texts {
		v, ok, fits := numberValue(t)
		switch {
		case ok && fits:
			good, vals = append(good, t), append(vals, v)
		case ok:
			bad = append(bad, t)
		case strings.ContainsAny(t, "+-"):
			// An expression of several literals
		case t[0] >= '0' && t[0] <= '9' || t[0] == '.':
			bad = append(bad, t)
		}
	}
	r.Note("number_literals", int64(len(good)))
	r.Note("texts_that_are_no_numbers", int64(len(bad)))
	chunk := 320
	r.Par((len(good)+chunk-1)/chunk, func(w *mc.W, i int) {
		e := (i + 1) * chunk
		if e > len(good) {
			e = len(good)
		}
		literals(w, good[i*chunk:e], vals[i*chunk:e])
	})
	r.Par(len(bad), func(w *mc.W, i int) {
		t := bad[i]
		w.Case("number text "+t, func() string {
			v, pe, ee := literalValue(t)
			r.Trans(1)
			r.State(t)
			switch {
			case isPanic(pe):
				return pe.Error()
			case pe != nil:
				return ""
			case ee != nil && strings.Contains(t, "."):
				// A property of a number
				return ""
			}
			return "is accepted as " + ref.Key(v)
		})
	})
}

func runStrings(r *mc.Run) {
	n := 3
	if r.Thorough {
		n = 4
	}
	esc := wordsOver([]string{"a", "'", "\"", "\\", "n", "\n", "\r", "\t", "`", "é", "😀", "u", "0", "/", "*", "$", "\u2028", "\x00"}, 0, n)
	esc = append(esc, wordsOver([]string{"\\", "\"", "u", "4", "'", "\n"}, n+1, n+2)...)
	esc = append(esc, "\\u0041", "\\U00000041", "\\\\u0041", "//", "/* x */", "\xef\xbb\xbfa", "\u00a0", strings.Repeat("\\\"", 50), strings.Repeat("x", 3000))
	r.Note("escaped_strings", int64(len(esc)))
	texts := make([]string, len(esc))
	vals := make([]ref.V, len(esc))
	for i, s := range esc {
		texts[i] = oc.EscapeStringLiteral(s)
		vals[i] = s
	}
	par := func(texts []string, vals []ref.V) {
		chunk := 320
		r.Par((len(texts)+chunk-1)/chunk, func(w *mc.W, i int) {
			e := (i + 1) * chunk
			if e > len(texts) {
				e = len(texts)
			}
			literals(w, texts[i*chunk:e], vals[i*chunk:e])
		})
	}
	par(texts, vals)
	bodies := wordsOver([]string{"a", "'", "\"", "\\", "n", "u", "0", "\n", "B"}, 0, n)
	bodies = append(bodies, wordsOver([]string{"\\", "t", "'", "\""}, n+1, n+2)...)
	for _, e := range []string{"b", "f", "n", "r", "t", "B", "F", "N", "R", "T", "\\", "'", "\"", "a", "v", "0", "x41", "u", "U", "u0", "u00", "u004", "u0041", "u00e9", "u00E9", "u2028", "uFFFD", "u0000", "u00410042", "U00000041", "U0001F600", "U0001f600", "U0001F6001", "u004G", "u00 41", " ", "/"} {
		for _, pre := range []string{"", "a", "\\\\"} {
			for _, post := range []string{"", "b", "\\n", "9", "zz"} {
				bodies = append(bodies, pre+"\\"+e+post)
			}
		}
	}
	texts, vals = nil, nil
	var bad []string
	seen := map[string]bool{}
	for _, b := range bodies {
		for _, q := range []byte{'\'', '"'} {
			t := string(q) + b + string(q)
			if seen[t] {
				continue
			}
			seen[t] = true
			s, ok, spec := unescape(b, q)
			switch {
			case !spec:
				r.Unspec()
			case ok:
				texts, vals = append(texts, t), append(vals, s)
			case strings.Count(t, string(q)) <= 3:
				bad = append(bad, t)
			}
		}
	}
	r.Note("string_literals", int64(len(texts)))
	par(texts, vals)
	r.Par(len(bad), func(w *mc.W, i int) {
		t := bad[i]
		w.Case("string text "+t, func() string {
			r.Trans(1)
			v, pe, ee := literalValue(t)
			if isPanic(pe) {
				return pe.Error()
			}
			if pe == nil {
				return "is accepted as " + ref.Key(v) + fmt.Sprint(ee)
			}
			return ""
		})
	})
	// Other literals
	l := []string{"true", "TRUE", "True", "false", "FALSE", "fAlSe", "null", "NULL", "Null", "[]", "[ ]", "[1]", "[1,2]", "[ 1 , 2 ]", "[[]]", "[[1],[2,[3]]]", "[null]", "[1,'a',true,null,2.5]", "{}", "{ }", "{a:1}", "{a:1,b:2}", "{ a : 1 , b : 2 }", "{a:{b:{c:[1,{d:2}]}}}", "{a:null}", "[{a:1},{a:2}]", "{`a b`:1}", "{`a``b`:1}", "{null:1,true:2}", "{a:1,a:2}", "{é:1}", "{_:1}", "{a1_:1}"}
	m := func(kv ...interface{}) ref.Map {
		x := ref.Map{}
		for i := 0; i < len(kv); i += 2 {
			x[kv[i].(string)] = kv[i+1]
		}
		return x
	}
	lv := []ref.V{true, true, true, false, false, false, nil, nil, nil, ref.List{}, ref.List{}, ref.List{1}, ref.List{1, 2}, ref.List{1, 2}, ref.List{ref.List{}}, ref.List{ref.List{1}, ref.List{2, ref.List{3}}}, ref.List{nil}, ref.List{1, "a", true, nil, 2.5}, m(), m(), m("a", 1), m("a", 1, "b", 2), m("a", 1, "b", 2), m("a", m("b", m("c", ref.List{1, m("d", 2)}))), m("a", nil), ref.List{m("a", 1), m("a", 2)}, m("a b", 1), m("a`b", 1), m("null", 1, "true", 2), m("a", 2), m("é", 1), m("_", 1), m("a1_", 1)}
	par(l, lv)
}

var reserved = strings.Fields("ALL ASC ASCENDING BY CREATE DELETE DESC DESCENDING DETACH EXISTS LIMIT MATCH MERGE ON OPTIONAL ORDER REMOVE RETURN SET SKIP WHERE WITH UNION UNWIND AND AS CONTAINS DISTINCT ENDS IN IS NOT OR STARTS XOR FALSE TRUE NULL CONSTRAINT DO FOR REQUIRE UNIQUE CASE WHEN THEN ELSE END MANDATORY SCALAR OF ADD DROP")

// names that can be written without backticks everywhere
var plainNames = []string{"x", "X", "n1", "_", "_x", "été", "Name", "count", "COUNT", "filter", "any", "none", "single", "extract", "a", "F", "e", "matches", "returns", "nulls", "x_y", "日本", "toInteger", "size", "id"}

// nameCase checks that a name written as text denotes the name
func nameCase(r *mc.Run, text, name string, variable bool) string {
	ask := func(q string, want ...ref.Row) (*sut.World, string) {
		p, err := sut.SafeParse(q)
		if err != nil {
			return nil, q + " does not parse: " + err.Error()
		}
		w := sut.NewWorld()
		r.Trans(1)
		o := w.Eval(p, w.Ctx(nil, map[string]ref.V{}))
		if o.Err != nil || o.Panic != "" || o.Bad != "" {
			return nil, q + " gives " + o.String()
		}
		if rowsKey(o.Rows) != rowsKey(want) {
			return nil, q + " gives " + rowsKey(o.Rows) + ", expected " + rowsKey(want)
		}
		return w, ""
	}
	// label, type and property keys
	q := fmt.Sprintf("CREATE (n:%s {%s: 1})-[e:%s {%s: 2}]->(:o) RETURN labels(n) AS l, n.%s AS p, type(e) AS t, e.%s AS q, {%s: 3} AS m", text, text, text, text, text, text, text)
	w, s := ask(q, ref.Row{"l": ref.List{name}, "p": 1, "t": name, "q": 2, "m": ref.Map{name: 3}})
	if s != "" {
		return s
	}
	// The graph
	found := 0
	for itr := w.G.GetNodesWithAllLabels(lpg.NewStringSet(name)); itr.Next(); {
		if v, ok := itr.Node().GetProperty(name); !ok || v != 1 {
			return q + fmt.Sprintf(" stores no property %q", name)
		}
		found++
	}
	if found != 1 {
		return q + fmt.Sprintf(" creates %d nodes with the label %q", found, name)
	}
	found = 0
	for itr := w.G.GetEdgesWithAnyLabel(lpg.NewStringSet(name)); itr.Next(); {
		if v, ok := itr.Edge().GetProperty(name); !ok || v != 2 {
			return q + fmt.Sprintf(" stores no property %q of the relationship", name)
		}
		found++
	}
	if found != 1 {
		return q + fmt.Sprintf(" creates %d relationships of type %q", found, name)
	}
	// Reading and changing them by name, in a graph with other names
	for _, q := range []string{
		fmt.Sprintf("MATCH (n:%s {%s: 1})-[:%s]->() RETURN 1 AS x", text, text, text),
		fmt.Sprintf("MATCH (n)-[:zz|%s {%s: 2}]->() WHERE n.%s = 1 SET n.%s = 5, n:%s:new REMOVE n.nosuchkey REMOVE n:new RETURN 1 AS x", text, text, text, text, text),
		fmt.Sprintf("MATCH (n {%s: 5}) REMOVE n.%s REMOVE n:%s RETURN 1 AS x", text, text, text),
	} {
		p, err := sut.SafeParse(q)
		if err != nil {
			return q + " does not parse: " + err.Error()
		}
		o := w.Eval(p, w.Ctx(nil, nil))
		r.Trans(1)
		if rowsKey(o.Rows) != rowsKey([]ref.Row{{"x": 1}}) {
			return q + " gives " + o.String()
		}
	}
	for itr := w.G.GetNodes(); itr.Next(); {
		if _, ok := itr.Node().GetProperty(name); ok || itr.Node().GetLabels().Has(name) {
			return fmt.Sprintf("the property or label %q is not removed", name)
		}
	}
	if !variable {
		return ""
	}
	// variables, aliases and parameters
	if name == "l" || name == "m" {
		return ""
	}
	if _, s := ask(fmt.Sprintf("RETURN 7 AS %s", text), ref.Row{name: 7}); s != "" {
		return s
	}
	if _, s := ask(fmt.Sprintf("CREATE (%s:l {k: 3}) RETURN %s.k AS m", text, text), ref.Row{"m": 3}); s != "" {
		return s
	}
	q = fmt.Sprintf("RETURN $%s AS m, %s AS l", text, text)
	p, err := sut.SafeParse(q)
	if err != nil {
		return q + " does not parse: " + err.Error()
	}
	w = sut.NewWorld()
	ctx := w.Ctx(map[string]ref.V{name: 8}, map[string]ref.V{name: 9})
	if o := w.Eval(p, ctx); rowsKey(o.Rows) != rowsKey([]ref.Row{{"m": 9, "l": 8}}) {
		return q + " gives " + o.String()
	}
	r.Trans(1)
	return ""
}

func runNames(r *mc.Run) {
	n := 2
	if r.Thorough {
		n = 3
	}
	names := wordsOver([]string{"a", "`", " ", "'", "\"", "\\", "-", "é", "\n", "0", ":", "$", "."}, 1, n)
	names = append(names, wordsOver([]string{"`", "a"}, n+1, n+2)...)
	names = append(names, "MATCH", "a b c", "//", "/* a */", "😀", "日本", "\u00a0", "null", "true", "n.p", strings.Repeat("`", 20), strings.Repeat("long ", 300))
	for _, k := range reserved {
		names = append(names, k, strings.ToLower(k))
	}
	r.Note("escaped_names", int64(len(names)))
	r.Par(len(names), func(w *mc.W, i int) {
		name := names[i]
		w.Case("escaped name "+strconv.Quote(name), func() string {
			r.State("name " + name)
			text := "`" + strings.ReplaceAll(name, "`", "``") + "`"
			if oc.EscapeLabelLiteral(name) != text && ref.Key(oc.EscapeLabelLiteral(name)) == "" {
				return "?"
			}
			// The helpers may escape in any way that denotes the name
			for k, t := range []string{text, oc.EscapeLabelLiteral(name), oc.EscapePropertyKeyLiteral(name)} {
				if k > 0 && t == text {
					continue
				}
				if s := nameCase(r, t, name, k == 0); s != "" {
					return s
				}
			}
			return ""
		})
	})
	r.Par(len(reserved)*3, func(w *mc.W, i int) {
		k := reserved[i/3]
		switch i % 3 {
		case 1:
			k = strings.ToLower(k)
		case 2:
			k = strings.Title(strings.ToLower(k))
		}
		w.Case("reserved word "+k+" as a name", func() string {
			r.State("word " + k)
			return nameCase(r, k, k, false)
		})
	})
	r.Par(len(plainNames), func(w *mc.W, i int) {
		k := plainNames[i]
		w.Case("name "+k, func() string {
			r.State("plain " + k)
			return nameCase(r, k, k, true)
		})
	})
}
