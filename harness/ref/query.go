package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// NodePat is a node of a pattern
type NodePat struct {
	Var    string
	Labels []string
	Props  Expr // MapX, Param or nil
}

type Dir int

const (
	Right Dir = iota
	Left
	Both
)

// RelPat is a relationship of a pattern
type RelPat struct {
	Var   string
	Types []string
	Dir   Dir
	// Rng is the text of the range: "", "*", "*2", "*1..2", "*2..", "*..2"
	Rng   string
	Props Expr
	// Arrows writes a relationship of both directions with two arrows
	Arrows bool
}

type Part struct {
	Nodes []NodePat
	Rels  []RelPat
}

type Match struct {
	Optional bool
	Parts    []Part
	Where    Expr
}

// Update is one of Create, Set, Remove, Delete, Merge
type Update interface {
	Str() string
	apply(x *exec, rows []Row) ([]Row, St)
}

type Create struct{ Parts []Part }
type SetItem struct {
	// Kind is "prop", "=", "+=", "label"
	Kind   string
	Var    string
	Key    string
	E      Expr
	Labels []string
}
type Set struct{ Items []SetItem }
type RemoveItem struct {
	Var    string
	Key    string
	Labels []string
}
type Remove struct{ Items []RemoveItem }
type Delete struct {
	Detach bool
	Exprs  []Expr
}
type MergeAct struct {
	OnCreate bool
	Set      Set
}
type Merge struct {
	Part Part
	Acts []MergeAct
}

type Item struct {
	E  Expr
	As string
}
type SortItem struct {
	E    Expr
	Desc bool
}
type Return struct {
	Distinct    bool
	Star        bool
	Items       []Item
	Order       []SortItem
	Skip, Limit Expr
}

type Single struct {
	Reads []Match
	Upds  []Update
	Ret   *Return
}

type Query struct {
	Singles []Single
	// All[i] is set if Singles[i] and Singles[i+1] are combined with
	// UNION ALL
	All []bool
}

func labelStr(l []string) string {
	s := ""
	for _, x := range l {
		s += ":" + QuoteName(x)
	}
	return s
}

func propStr(e Expr) string {
	if e == nil {
		return ""
	}
	return " " + e.Str()
}

func (n NodePat) Str() string {
	v := ""
	if n.Var != "" {
		v = QuoteName(n.Var)
	}
	return "(" + v + labelStr(n.Labels) + propStr(n.Props) + ")"
}

func (r RelPat) Str() string {
	s := ""
	if r.Var != "" {
		s = QuoteName(r.Var)
	}
	for i, t := range r.Types {
		if i == 0 {
			s += ":"
		} else {
			s += "|"
		}
		s += QuoteName(t)
	}
	s += r.Rng + propStr(r.Props)
	if s != "" {
		s = "[" + s + "]"
	}
	switch r.Dir {
	case Right:
		return "-" + s + "->"
	case Left:
		return "<-" + s + "-"
	}
	if r.Arrows {
		return "<-" + s + "->"
	}
	return "-" + s + "-"
}

func (p Part) Str() string {
	s := p.Nodes[0].Str()
	for i := range p.Rels {
		s += p.Rels[i].Str() + p.Nodes[i+1].Str()
	}
	return s
}

func partsStr(parts []Part) string {
	var s []string
	for _, p := range parts {
		s = append(s, p.Str())
	}
	return strings.Join(s, ", ")
}

func (m Match) Str() string {
	s := "MATCH " + partsStr(m.Parts)
	if m.Optional {
		s = "OPTIONAL " + s
	}
	if m.Where != nil {
		s += " WHERE " + m.Where.Str()
	}
	return s
}

func (c Create) Str() string { return "CREATE " + partsStr(c.Parts) }
func (i SetItem) Str() string {
	switch i.Kind {
	case "prop":
		return QuoteName(i.Var) + "." + QuoteName(i.Key) + " = " + i.E.Str()
	case "label":
		return QuoteName(i.Var) + labelStr(i.Labels)
	}
	return QuoteName(i.Var) + " " + i.Kind + " " + i.E.Str()
}
func (c Set) Str() string {
	var s []string
	for _, i := range c.Items {
		s = append(s, i.Str())
	}
	return "SET " + strings.Join(s, ", ")
}
func (c Remove) Str() string {
	var s []string
	for _, i := range c.Items {
		if i.Key != "" {
			s = append(s, QuoteName(i.Var)+"."+QuoteName(i.Key))
		} else {
			s = append(s, QuoteName(i.Var)+labelStr(i.Labels))
		}
	}
	return "REMOVE " + strings.Join(s, ", ")
}
func (c Delete) Str() string {
	var s []string
	for _, i := range c.Exprs {
		s = append(s, i.Str())
	}
	r := "DELETE " + strings.Join(s, ", ")
	if c.Detach {
		r = "DETACH " + r
	}
	return r
}
func (m Merge) Str() string {
	s := "MERGE " + m.Part.Str()
	for _, a := range m.Acts {
		if a.OnCreate {
			s += " ON CREATE " + a.Set.Str()
		} else {
			s += " ON MATCH " + a.Set.Str()
		}
	}
	return s
}
func (r Return) Str() string {
	s := "RETURN "
	if r.Distinct {
		s += "DISTINCT "
	}
	var p []string
	if r.Star {
		p = append(p, "*")
	}
	for _, i := range r.Items {
		t := i.E.Str()
		if i.As != "" {
			t += " AS " + QuoteName(i.As)
		}
		p = append(p, t)
	}
	s += strings.Join(p, ", ")
	if len(r.Order) > 0 {
		var q []string
		for _, o := range r.Order {
			t := o.E.Str()
			if o.Desc {
				t += " DESC"
			}
			q = append(q, t)
		}
		s += " ORDER BY " + strings.Join(q, ", ")
	}
	if r.Skip != nil {
		s += " SKIP " + r.Skip.Str()
	}
	if r.Limit != nil {
		s += " LIMIT " + r.Limit.Str()
	}
	return s
}
func (q Single) Str() string {
	var p []string
	for _, m := range q.Reads {
		p = append(p, m.Str())
	}
	for _, u := range q.Upds {
		p = append(p, u.Str())
	}
	if q.Ret != nil {
		p = append(p, q.Ret.Str())
	}
	return strings.Join(p, " ")
}
func (q Query) Str() string {
	s := q.Singles[0].Str()
	for i := 1; i < len(q.Singles); i++ {
		if q.All[i-1] {
			s += " UNION ALL "
		} else {
			s += " UNION "
		}
		s += q.Singles[i].Str()
	}
	return s
}

// Q makes a query of one part
func Q(reads []Match, upds []Update, ret *Return) Query {
	return Query{Singles: []Single{{Reads: reads, Upds: upds, Ret: ret}}}
}

// Rng gives the bounds of a range, max -1 if unbounded
func Rng(s string) (min, max int, varlen bool) {
	if s == "" {
		return 1, 1, false
	}
	s = strings.TrimPrefix(s, "*")
	if s == "" {
		return 1, -1, true
	}
	i := strings.Index(s, "..")
	if i < 0 {
		n, _ := strconv.Atoi(s)
		return n, n, true
	}
	min, max = 1, -1
	if s[:i] != "" {
		min, _ = strconv.Atoi(s[:i])
	}
	if s[i+2:] != "" {
		max, _ = strconv.Atoi(s[i+2:])
	}
	return min, max, true
}

// Opts are the inputs of an evaluation
type Opts struct {
	Vars   map[string]V
	Params map[string]V
	// Filter is the property filter
	Filter func(string, V) V
	// Perm chooses the order of the rows of a reading clause; nil is
	// the identity
	Perm func(n int) []int
}

// Result is the outcome of a query
type Result struct {
	St   St
	Rows []Row
	Cols []string
	G    *Graph
	// MultiRow is set if an order of rows was chosen by Perm or could
	// have been
	MaxRows int
}

type exec struct {
	g       *Graph
	o       Opts
	maxRows int
	nids    []NodeID
	eids    []EdgeID
}

func (x *exec) env(row Row) *Env {
	vars := make(map[string]V, len(row)+len(x.o.Vars))
	for k, v := range x.o.Vars {
		vars[k] = v
	}
	for k, v := range row {
		vars[k] = v
	}
	return &Env{G: x.g, Vars: vars, Params: x.o.Params}
}

func (x *exec) bound(row Row, name string) (V, bool) {
	if v, ok := row[name]; ok {
		return v, true
	}
	v, ok := x.o.Vars[name]
	return v, ok
}

func (x *exec) noteRows(n int) {
	if n > x.maxRows {
		x.maxRows = n
	}
}

// Run evaluates q on a copy of g
func Run(g *Graph, q Query, o Opts) Result {
	x := &exec{g: g.Clone(), o: o}
	var res Result
	for i, s := range q.Singles {
		rows, st := x.single(s)
		if st != OK {
			return Result{St: st, G: x.g, MaxRows: x.maxRows}
		}
		if i == 0 {
			res.Rows = rows
			continue
		}
		all := append(append([]Row{}, res.Rows...), rows...)
		if !q.All[i-1] {
			all = distinct(all)
		}
		res.Rows = all
	}
	res.G = x.g
	res.MaxRows = x.maxRows
	if r := q.Singles[0].Ret; r != nil {
		for i, it := range r.Items {
			res.Cols = append(res.Cols, colName(i, it))
		}
	}
	return res
}

func colName(i int, it Item) string {
	if it.As != "" {
		return it.As
	}
	return strconv.Itoa(i + 1)
}

// SameRow decides if two rows are equal
func SameRow(a, b Row) bool { return Same(Map(a), Map(b)) }

func distinct(rows []Row) []Row {
	var out []Row
	for _, r := range rows {
		dup := false
		for _, s := range out {
			if SameRow(r, s) {
				dup = true
				break
			}
		}
		if !dup {
			out = append(out, r)
		}
	}
	return out
}

func (x *exec) single(s Single) ([]Row, St) {
	var rows []Row
	if len(s.Reads) == 0 {
		rows = []Row{{}}
	} else {
		rows = []Row{{}}
		for _, m := range s.Reads {
			var next []Row
			for _, r := range rows {
				ms, st := x.match(m, r)
				if st != OK {
					return nil, st
				}
				next = append(next, ms...)
			}
			rows = next
		}
		x.noteRows(len(rows))
		if x.o.Perm != nil {
			p := x.o.Perm(len(rows))
			if p != nil {
				nr := make([]Row, len(rows))
				for i, k := range p {
					nr[i] = rows[k]
				}
				rows = nr
			}
		}
	}
	for _, u := range s.Upds {
		if len(s.Reads) == 0 {
			switch u.(type) {
			case Create, Merge:
			default:
				if len(s.Upds) > 0 && &s.Upds[0] == &u {
					return nil, UNSPEC
				}
			}
		}
		var st St
		rows, st = u.apply(x, rows)
		if st != OK {
			return nil, st
		}
		x.noteRows(len(rows))
	}
	if s.Ret == nil {
		return nil, OK
	}
	return x.project(*s.Ret, rows)
}

func (x *exec) project(r Return, rows []Row) ([]Row, St) {
	skip, limit := -1, -1
	for i, e := range []Expr{r.Skip, r.Limit} {
		if e == nil {
			continue
		}
		v, st := e.Eval(x.env(nil))
		if st != OK {
			return nil, st
		}
		n, ok := v.(int)
		if !ok {
			return nil, ERR
		}
		if n < 0 {
			return nil, UNSPEC
		}
		if i == 0 {
			skip = n
		} else {
			limit = n
		}
	}
	type outRow struct {
		row  Row
		keys []V
	}
	var out []outRow
	for _, row := range rows {
		o := Row{}
		if r.Star {
			for k, v := range row {
				o[k] = v
			}
		}
		env := x.env(row)
		for i, it := range r.Items {
			v, st := it.E.Eval(env)
			if st != OK {
				return nil, st
			}
			o[colName(i, it)] = v
		}
		dup := false
		if r.Distinct {
			for _, p := range out {
				if SameRow(p.row, o) {
					dup = true
				}
			}
		}
		if dup {
			continue
		}
		oe := x.env(row)
		for k, v := range o {
			if k != "" && (k[0] < '0' || k[0] > '9') {
				oe.Vars[k] = v
			}
		}
		var keys []V
		for _, s := range r.Order {
			v, st := s.E.Eval(oe)
			if st != OK {
				return nil, st
			}
			keys = append(keys, v)
		}
		out = append(out, outRow{o, keys})
	}
	bad := false
	if len(r.Order) > 0 {
		sort.SliceStable(out, func(i, j int) bool {
			for k, s := range r.Order {
				a, b := out[i].keys[k], out[j].keys[k]
				c := 0
				switch {
				case a == nil && b == nil:
				case a == nil:
					c = 1
				case b == nil:
					c = -1
				default:
					var ok bool
					c, ok = Compare(a, b)
					if !ok {
						bad = true
						return false
					}
				}
				if c == 0 {
					continue
				}
				return (c < 0) != s.Desc
			}
			return false
		})
		// Comparability is needed for all pairs, not only the ones sort saw
		for k := range r.Order {
			for i := range out {
				for j := range out {
					a, b := out[i].keys[k], out[j].keys[k]
					if a != nil && b != nil {
						if _, ok := Compare(a, b); !ok {
							bad = true
						}
					}
				}
			}
		}
	}
	if bad {
		return nil, UNSPEC
	}
	if skip > len(out) {
		skip = len(out)
	}
	if skip > 0 {
		out = out[skip:]
	}
	if limit >= 0 && limit < len(out) {
		out = out[:limit]
	}
	var ret []Row
	for _, o := range out {
		ret = append(ret, o.row)
	}
	return ret, OK
}

// evalProps evaluates the properties of a pattern item
func evalProps(e Expr, env *Env) (Map, St) {
	if e == nil {
		return nil, OK
	}
	v, st := e.Eval(env)
	if st != OK {
		return nil, st
	}
	m, ok := v.(Map)
	if !ok {
		return nil, ERR
	}
	return m, OK
}

func hasProps(have Map, want Map) bool {
	for k, v := range want {
		if v == nil {
			return false
		}
		h, ok := have[k]
		if !ok || !Same(h, v) {
			return false
		}
	}
	return true
}

// match extends a row with the occurrences of the patterns
func (x *exec) match(m Match, in Row) ([]Row, St) {
	x.nids, x.eids = x.g.NodeIDs(), x.g.EdgeIDs()
	env := x.env(in)
	type pp struct{ n, r []Map }
	props := make([]pp, len(m.Parts))
	for i, p := range m.Parts {
		for _, n := range p.Nodes {
			v, st := evalProps(n.Props, env)
			if st != OK {
				return nil, st
			}
			props[i].n = append(props[i].n, v)
		}
		for _, r := range p.Rels {
			v, st := evalProps(r.Props, env)
			if st != OK {
				return nil, st
			}
			props[i].r = append(props[i].r, v)
		}
	}
	var out []Row
	status := OK
	found := func(r Row) {
		if status != OK {
			return
		}
		if m.Where != nil {
			v, st := m.Where.Eval(x.env(r))
			if st != OK {
				status = st
				return
			}
			switch b := v.(type) {
			case bool:
				if !b {
					return
				}
			case nil:
				return
			default:
				status = UNSPEC
				return
			}
		}
		o := Row{}
		for k, v := range r {
			o[k] = v
		}
		out = append(out, o)
	}
	cur := Row{}
	for k, v := range in {
		cur[k] = v
	}
	var part func(i int)
	part = func(i int) {
		if i == len(m.Parts) {
			found(cur)
			return
		}
		x.matchPart(m.Parts[i], props[i].n, props[i].r, cur, func() { part(i + 1) })
	}
	part(0)
	if status != OK {
		return nil, status
	}
	if m.Optional && len(out) == 0 {
		o := Row{}
		for k, v := range in {
			o[k] = v
		}
		for _, v := range PartVars(m.Parts) {
			if val, ok := x.bound(in, v); ok {
				o[v] = val
			} else {
				o[v] = nil
			}
		}
		out = append(out, o)
	}
	// A row also has the variables that were bound outside of the query
	for _, o := range out {
		for _, v := range PartVars(m.Parts) {
			if _, ok := o[v]; !ok {
				o[v], _ = x.bound(in, v)
			}
		}
	}
	return out, OK
}

// PartVars lists the variables of patterns
func PartVars(parts []Part) []string {
	seen := map[string]bool{"": true}
	var r []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	for _, p := range parts {
		for _, n := range p.Nodes {
			add(n.Var)
		}
		for _, n := range p.Rels {
			add(n.Var)
		}
	}
	return r
}

// bind tries to give a value to a variable; undo removes it
func (x *exec) bind(row Row, name string, v V) (ok bool, undo bool) {
	if name == "" {
		return true, false
	}
	old, exists := x.bound(row, name)
	if !exists {
		row[name] = v
		return true, true
	}
	return old != nil && Same(norm(old), norm(v)), false
}

// norm makes a path of one relationship that relationship
func norm(v V) V {
	if p, ok := v.(PathV); ok && len(p) == 1 {
		return p[0]
	}
	return v
}

func (x *exec) matchPart(p Part, np, rp []Map, row Row, f func()) {
	nodeOK := func(i int, n NodeID) bool {
		for _, l := range p.Nodes[i].Labels {
			if !x.g.HasLabel(n, l) {
				return false
			}
		}
		return hasProps(x.g.Nodes[n].Props, np[i])
	}
	edgeOK := func(i int, e EdgeID) bool {
		ed := x.g.Edges[e]
		if len(p.Rels[i].Types) > 0 {
			ok := false
			for _, t := range p.Rels[i].Types {
				if t == ed.Type {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return hasProps(ed.Props, rp[i])
	}
	var node func(i int, n NodeID)
	var rel func(i int, from NodeID)
	node = func(i int, n NodeID) {
		if !nodeOK(i, n) {
			return
		}
		ok, undo := x.bind(row, p.Nodes[i].Var, n)
		if !ok {
			return
		}
		if i == len(p.Rels) {
			f()
		} else {
			rel(i, n)
		}
		if undo {
			delete(row, p.Nodes[i].Var)
		}
	}
	rel = func(i int, from NodeID) {
		min, max, varlen := Rng(p.Rels[i].Rng)
		emit := func(path PathV, to NodeID) {
			var v V = append(PathV{}, path...)
			if len(path) == 1 {
				v = path[0]
			}
			ok, undo := x.bind(row, p.Rels[i].Var, v)
			if !ok {
				return
			}
			node(i+1, to)
			if undo {
				delete(row, p.Rels[i].Var)
			}
		}
		steps := func(at NodeID, g func(e EdgeID, to NodeID)) {
			for _, e := range x.eids {
				ed := x.g.Edges[e]
				if !edgeOK(i, e) {
					continue
				}
				d := p.Rels[i].Dir
				if (d == Right || d == Both) && ed.From == at {
					g(e, ed.To)
				} else if d == Both && ed.To == at {
					g(e, ed.From)
				}
				if d == Left && ed.To == at {
					g(e, ed.From)
				}
			}
		}
		if !varlen {
			steps(from, func(e EdgeID, to NodeID) { emit(PathV{e}, to) })
			return
		}
		used := map[EdgeID]bool{}
		var walk func(at NodeID, path PathV)
		walk = func(at NodeID, path PathV) {
			if len(path) >= min && len(path) > 0 {
				emit(path, at)
			}
			if max >= 0 && len(path) >= max {
				return
			}
			steps(at, func(e EdgeID, to NodeID) {
				if used[e] {
					return
				}
				used[e] = true
				walk(to, append(path[:len(path):len(path)], e))
				used[e] = false
			})
		}
		walk(from, nil)
	}
	for _, n := range x.nids {
		node(0, n)
	}
}

// Occurrences gives the rows of a pattern
func Occurrences(g *Graph, parts []Part, vars map[string]V) ([]Row, St) {
	x := &exec{g: g, o: Opts{Vars: vars}}
	return x.match(Match{Parts: parts}, Row{})
}

func (x *exec) filter(k string, v V) V {
	if x.o.Filter != nil {
		return x.o.Filter(k, v)
	}
	return v
}

func (x *exec) createProps(e Expr, env *Env) (Map, St) {
	m, st := evalProps(e, env)
	if st != OK {
		return nil, st
	}
	r := Map{}
	for k, v := range m {
		if v == nil {
			continue
		}
		if !storable(v) {
			return nil, UNSPEC
		}
		r[k] = x.filter(k, v)
	}
	return r, OK
}

func storable(v V) bool {
	switch x := v.(type) {
	case nil, int, float64, bool, string, Date, Time, DateTime, Dur:
		return true
	case List:
		for _, e := range x {
			if !storable(e) {
				return false
			}
		}
		return true
	}
	return false
}

// createPart creates the pattern, and sets the variables in row
func (x *exec) createPart(p Part, row Row) St {
	node := func(n NodePat) (NodeID, St) {
		if n.Var != "" {
			if v, ok := x.bound(row, n.Var); ok {
				if len(n.Labels) > 0 || n.Props != nil {
					return 0, ERR
				}
				id, ok := v.(NodeID)
				if !ok {
					return 0, ERR
				}
				if x.g.Nodes[id] == nil {
					return 0, UNSPEC
				}
				return id, OK
			}
		}
		pr, st := x.createProps(n.Props, x.env(row))
		if st != OK {
			return 0, st
		}
		id := x.g.AddNode(n.Labels, pr)
		if n.Var != "" {
			row[n.Var] = id
		}
		return id, OK
	}
	last, st := node(p.Nodes[0])
	if st != OK {
		return st
	}
	for i, r := range p.Rels {
		to, st := node(p.Nodes[i+1])
		if st != OK {
			return st
		}
		if r.Rng != "" || len(r.Types) > 1 {
			return ERR
		}
		if r.Var != "" {
			if _, ok := x.bound(row, r.Var); ok {
				return ERR
			}
		}
		if r.Dir == Both {
			return UNSPEC
		}
		pr, st := x.createProps(r.Props, x.env(row))
		if st != OK {
			return st
		}
		t := ""
		if len(r.Types) == 1 {
			t = r.Types[0]
		}
		var e EdgeID
		if r.Dir == Left {
			e = x.g.AddEdge(to, last, t, pr)
		} else {
			e = x.g.AddEdge(last, to, t, pr)
		}
		if r.Var != "" {
			row[r.Var] = e
		}
		last = to
	}
	return OK
}

func copyRow(r Row) Row {
	o := Row{}
	for k, v := range r {
		o[k] = v
	}
	return o
}

func (c Create) apply(x *exec, rows []Row) ([]Row, St) {
	var out []Row
	for _, r := range rows {
		o := copyRow(r)
		for _, p := range c.Parts {
			if st := x.createPart(p, o); st != OK {
				return nil, st
			}
		}
		out = append(out, o)
	}
	return out, OK
}

func (x *exec) applySet(s Set, row Row) St {
	for _, it := range s.Items {
		env := x.env(row)
		var val V
		if it.E != nil {
			v, st := it.E.Eval(env)
			if st != OK {
				return st
			}
			val = v
		}
		t, ok := env.Vars[it.Var]
		if !ok {
			return ERR
		}
		id, ok := t.(NodeID)
		if !ok || x.g.Nodes[id] == nil {
			return UNSPEC
		}
		n := x.g.Nodes[id]
		switch it.Kind {
		case "prop":
			if !storable(val) {
				return UNSPEC
			}
			if val == nil {
				delete(n.Props, it.Key)
			} else {
				n.Props[it.Key] = x.filter(it.Key, val)
			}
		case "=", "+=":
			var src Map
			switch v := val.(type) {
			case NodeID:
				if x.g.Nodes[v] == nil {
					return UNSPEC
				}
				src = cloneMap(x.g.Nodes[v].Props)
			case Map:
				src = v
			case nil, EdgeID, PathV:
				return UNSPEC
			default:
				return ERR
			}
			for _, v := range src {
				if !storable(v) {
					return UNSPEC
				}
			}
			if it.Kind == "=" {
				n.Props = Map{}
			}
			for k, v := range src {
				if v == nil {
					delete(n.Props, k)
				} else {
					n.Props[k] = x.filter(k, v)
				}
			}
		case "label":
			n.Labels = normLabels(append(append([]string{}, n.Labels...), it.Labels...))
		default:
			panic("kind " + it.Kind)
		}
	}
	return OK
}

func (s Set) apply(x *exec, rows []Row) ([]Row, St) {
	for _, r := range rows {
		if st := x.applySet(s, r); st != OK {
			return nil, st
		}
	}
	return rows, OK
}

func (c Remove) apply(x *exec, rows []Row) ([]Row, St) {
	for _, r := range rows {
		for _, it := range c.Items {
			t, ok := x.bound(r, it.Var)
			if !ok {
				return nil, ERR
			}
			if t == nil && it.Key == "" {
				continue
			}
			id, ok := t.(NodeID)
			if !ok || x.g.Nodes[id] == nil {
				return nil, UNSPEC
			}
			n := x.g.Nodes[id]
			if it.Key != "" {
				delete(n.Props, it.Key)
				continue
			}
			var keep []string
			for _, l := range n.Labels {
				rm := false
				for _, m := range it.Labels {
					rm = rm || l == m
				}
				if !rm {
					keep = append(keep, l)
				}
			}
			n.Labels = normLabels(keep)
		}
	}
	return rows, OK
}

func (c Delete) apply(x *exec, rows []Row) ([]Row, St) {
	nodes := map[NodeID]bool{}
	edges := map[EdgeID]bool{}
	for _, r := range rows {
		env := x.env(r)
		for _, e := range c.Exprs {
			v, st := e.Eval(env)
			if st != OK {
				return nil, st
			}
			switch t := v.(type) {
			case nil:
			case NodeID:
				// Elements that are deleted already are ignored
				if x.g.Nodes[t] != nil {
					nodes[t] = true
				}
			case EdgeID:
				if x.g.Edges[t] != nil {
					edges[t] = true
				}
			case PathV:
				for _, e := range t {
					if x.g.Edges[e] != nil {
						edges[e] = true
					}
				}
			default:
				return nil, ERR
			}
		}
	}
	for _, id := range x.g.EdgeIDs() {
		e := x.g.Edges[id]
		if (nodes[e.From] || nodes[e.To]) && !edges[id] {
			if !c.Detach {
				return nil, ERR
			}
			edges[id] = true
		}
	}
	for e := range edges {
		delete(x.g.Edges, e)
	}
	for n := range nodes {
		delete(x.g.Nodes, n)
	}
	return rows, OK
}

func (m Merge) apply(x *exec, rows []Row) ([]Row, St) {
	var out []Row
	for _, r := range rows {
		env := x.env(r)
		for _, n := range m.Part.Nodes {
			pr, st := evalProps(n.Props, env)
			if st != OK {
				return nil, st
			}
			for _, v := range pr {
				if v == nil {
					return nil, UNSPEC
				}
			}
		}
		for _, n := range m.Part.Rels {
			pr, st := evalProps(n.Props, env)
			if st != OK {
				return nil, st
			}
			for _, v := range pr {
				if v == nil {
					return nil, UNSPEC
				}
			}
		}
		ms, st := x.match(Match{Parts: []Part{m.Part}}, r)
		if st != OK {
			return nil, st
		}
		if x.o.Perm != nil {
			if p := x.o.Perm(len(ms)); p != nil {
				ps := make([]Row, len(ms))
				for i, j := range p {
					ps[i] = ms[j]
				}
				ms = ps
			}
		}
		created := len(ms) == 0
		if created {
			o := copyRow(r)
			for _, v := range PartVars([]Part{m.Part}) {
				if b, ok := x.bound(r, v); ok && b == nil {
					return nil, UNSPEC
				}
			}
			if st := x.createPart(m.Part, o); st != OK {
				if st == ERR {
					return nil, ERR
				}
				return nil, st
			}
			ms = []Row{o}
		}
		for _, a := range m.Acts {
			if a.OnCreate != created {
				continue
			}
			for _, o := range ms {
				if st := x.applySet(a.Set, o); st != OK {
					return nil, st
				}
			}
		}
		out = append(out, ms...)
	}
	return out, OK
}

var _ = fmt.Sprint

// Project applies RETURN to rows
func Project(g *Graph, r Return, rows []Row, o Opts) ([]Row, []string, St) {
	x := &exec{g: g, o: o}
	out, st := x.project(r, rows)
	var cols []string
	for i, it := range r.Items {
		cols = append(cols, colName(i, it))
	}
	return out, cols, st
}

// Distinct keeps the first of each group of equal rows
func Distinct(rows []Row) []Row { return distinct(rows) }
