// Package sut drives the implementation under test
package sut

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"

	"verif/harness/ref"
)

// World is a real graph together with the names of its elements
type World struct {
	G      *lpg.Graph
	nid    map[*lpg.Node]ref.NodeID
	eid    map[*lpg.Edge]ref.EdgeID
	nodes  map[ref.NodeID]*lpg.Node
	edges  map[ref.EdgeID]*lpg.Edge
	nextN  ref.NodeID
	nextE  ref.EdgeID
	wrap   bool
	narrow func(interface{}) interface{}
}

// Property is a property value of the kind applications of lpg use: it is
// not the value, but has it
type Property struct{ v interface{} }

func (p *Property) GetNativeValue() interface{} { return p.v }

// Wrap makes a property value
func Wrap(v interface{}) interface{} {
	if p, ok := v.(*Property); ok {
		return &Property{p.v}
	}
	if v == nil {
		return nil
	}
	return &Property{v}
}

func NewWorld() *World {
	return &World{G: lpg.NewGraph(), nid: map[*lpg.Node]ref.NodeID{}, eid: map[*lpg.Edge]ref.EdgeID{}, nodes: map[ref.NodeID]*lpg.Node{}, edges: map[ref.EdgeID]*lpg.Edge{}}
}

// BuildOpts describe how a graph is created
type BuildOpts struct {
	// NodeOrder and EdgeOrder permute the creation
	NodeOrder, EdgeOrder []int
	// Wrap stores properties as values that are not query values, but have
	// them (lpg.WithNativeValue)
	Wrap bool
	// Narrow, if set, changes the numbers that are stored as properties to
	// other Go types of the same value
	Narrow func(interface{}) interface{}
	// Before and After are called before and after the elements are created
	Before, After func(*lpg.Graph)
}

// Build makes a real graph from a model graph
func Build(g *ref.Graph, o BuildOpts) *World {
	w := NewWorld()
	w.wrap, w.narrow = o.Wrap, o.Narrow
	if o.Before != nil {
		o.Before(w.G)
	}
	nodes := g.NodeIDs()
	for i := range nodes {
		k := i
		if o.NodeOrder != nil {
			k = o.NodeOrder[i]
		}
		id := nodes[k]
		n := g.Nodes[id]
		w.putNode(id, w.G.NewNode(append([]string(nil), n.Labels...), w.nativeMap(n.Props)))
	}
	edges := g.EdgeIDs()
	for i := range edges {
		k := i
		if o.EdgeOrder != nil {
			k = o.EdgeOrder[i]
		}
		id := edges[k]
		e := g.Edges[id]
		w.putEdge(id, w.G.NewEdge(w.nodes[e.From], w.nodes[e.To], e.Type, w.nativeMap(e.Props)))
	}
	w.nextN, w.nextE = g.Next()
	if o.After != nil {
		o.After(w.G)
	}
	return w
}

func (w *World) putNode(id ref.NodeID, n *lpg.Node) {
	w.nid[n] = id
	w.nodes[id] = n
	if id >= w.nextN {
		w.nextN = id + 1
	}
}

func (w *World) putEdge(id ref.EdgeID, e *lpg.Edge) {
	w.eid[e] = id
	w.edges[id] = e
	if id >= w.nextE {
		w.nextE = id + 1
	}
}

// Node gives the real node of an id
func (w *World) Node(id ref.NodeID) *lpg.Node { return w.nodes[id] }
func (w *World) Edge(id ref.EdgeID) *lpg.Edge { return w.edges[id] }

// Fixed gives the ids that new elements will get
func (w *World) Fixed() (ref.NodeID, ref.EdgeID) { return w.nextN, w.nextE }

func (w *World) nativeMap(m ref.Map) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = w.Native(v)
		if w.narrow != nil {
			r[k] = w.narrow(r[k])
		}
		if w.wrap {
			r[k] = Wrap(r[k])
		}
	}
	return r
}

func utc(y, mo, d, h, mi, s, n int) time.Time {
	return time.Date(y, time.Month(mo), d, h, mi, s, n, time.UTC)
}

// Native converts a model value to the value stored as a property
func (w *World) Native(v ref.V) interface{} {
	switch x := v.(type) {
	case nil, int, float64, bool, string:
		return x
	case ref.List:
		r := make([]oc.Value, 0, len(x))
		for _, e := range x {
			r = append(r, w.Value(e))
		}
		return r
	case ref.Map:
		r := make(map[string]oc.Value)
		for k, e := range x {
			r[k] = w.Value(e)
		}
		return r
	case ref.Date:
		return oc.NewDate(utc(x.Y, x.M, x.D, 0, 0, 0, 0))
	case ref.Time:
		return oc.NewLocalTime(utc(2000, 1, 1, x.H, x.M, x.S, x.N))
	case ref.DateTime:
		return oc.NewLocalDateTime(utc(x.Y, x.Date.M, x.D, x.H, x.Time.M, x.S, x.N))
	case ref.Dur:
		return oc.Duration{Months: x.Mo, Days: x.D, Seconds: x.S, Nanos: int(x.N)}
	case ref.NodeID:
		return w.nodes[x]
	case ref.EdgeID:
		p := &lpg.Path{}
		p.Append(lpg.PathElement{Edge: w.edges[x]})
		return p
	case ref.PathV:
		p := &lpg.Path{}
		// Find the orientation of the edges
		var es []*lpg.Edge
		for _, e := range x {
			es = append(es, w.edges[e])
		}
		for i, e := range es {
			rev := false
			if i > 0 {
				rev = p.Last() != e.GetFrom()
			} else if len(es) > 1 {
				rev = e.GetTo() != es[1].GetFrom() && e.GetTo() != es[1].GetTo()
			}
			p.Append(lpg.PathElement{Edge: e, Reverse: rev})
		}
		return p
	}
	panic(fmt.Sprintf("%T", v))
}

// Value converts a model value to a query value
func (w *World) Value(v ref.V) oc.Value {
	return oc.RValue{Value: w.Native(v)}
}

// FromTime converts the time types
func FromTime(x interface{}) (ref.V, bool) {
	switch t := x.(type) {
	case oc.Date:
		y, m, d := t.Time().Date()
		return ref.Date{Y: y, M: int(m), D: d}, true
	case oc.LocalTime:
		q := t.Time()
		return ref.Time{H: q.Hour(), M: q.Minute(), S: q.Second(), N: q.Nanosecond()}, true
	case oc.LocalDateTime:
		q := t.Time()
		y, m, d := q.Date()
		return ref.DateTime{Date: ref.Date{Y: y, M: int(m), D: d}, Time: ref.Time{H: q.Hour(), M: q.Minute(), S: q.Second(), N: q.Nanosecond()}}, true
	case oc.Duration:
		return ref.Dur{Mo: t.Months, D: t.Days, S: t.Seconds, N: int64(t.Nanos)}, true
	}
	return nil, false
}

// Model converts an observed value to a model value
func (w *World) Model(x interface{}) ref.V {
	switch t := x.(type) {
	case nil:
		return nil
	case *Property:
		return w.Model(t.v)
	case oc.ResultSet:
		return ref.Raw("resultset")
	case oc.Value:
		return w.Model(t.Get())
	case int, float64, bool, string:
		return t
	case []oc.Value:
		r := make(ref.List, 0, len(t))
		for _, e := range t {
			if e == nil {
				r = append(r, ref.Raw("nil Value"))
				continue
			}
			r = append(r, w.Model(e))
		}
		return r
	case map[string]oc.Value:
		r := make(ref.Map, len(t))
		for k, e := range t {
			if e == nil {
				r[k] = ref.Raw("nil Value")
				continue
			}
			r[k] = w.Model(e)
		}
		return r
	case *lpg.Node:
		if t == nil {
			return ref.Raw("nil node")
		}
		return w.nodeName(t)
	case *lpg.Edge:
		return w.edgeName(t)
	case *lpg.Path:
		if t == nil {
			return ref.Raw("nil path")
		}
		n := t.NumEdges()
		if n == 0 {
			if f := t.First(); f != nil {
				return ref.Raw("path at " + ref.Key(w.nodeName(f)))
			}
			return ref.Raw("empty path")
		}
		if n == 1 {
			return w.edgeName(t.GetEdge(0))
		}
		p := make(ref.PathV, n)
		for i := 0; i < n; i++ {
			p[i] = w.edgeName(t.GetEdge(i))
		}
		return p
	}
	if v, ok := FromTime(x); ok {
		return v
	}
	return ref.Raw(fmt.Sprintf("%T", x))
}

func (w *World) nodeName(n *lpg.Node) ref.NodeID {
	if id, ok := w.nid[n]; ok {
		return id
	}
	id := w.nextN
	w.putNode(id, n)
	return id
}

func (w *World) edgeName(e *lpg.Edge) ref.EdgeID {
	if id, ok := w.eid[e]; ok {
		return id
	}
	id := w.nextE
	w.putEdge(id, e)
	return id
}

// Outcome is what evaluating a query did
type Outcome struct {
	Err  error
	Rows []ref.Row
	Cols []string
	// Bad describes a result that is neither a result set nor an error
	Bad string
	// Panic is the text of a panic
	Panic string
}

func (o Outcome) String() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Bad != "" {
		return "bad result: " + o.Bad
	}
	if o.Err != nil {
		return "error: " + o.Err.Error()
	}
	var p []string
	for _, r := range o.Rows {
		p = append(p, r.Key())
	}
	return "rows: [" + strings.Join(p, ", ") + "]"
}

// Eval evaluates a parsed query
func (w *World) Eval(q oc.Evaluatable, ctx *oc.EvalContext) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Panic: fmt.Sprint(r)}
		}
	}()
	v, err := q.Evaluate(ctx)
	if err != nil {
		return Outcome{Err: err}
	}
	if v == nil {
		return Outcome{Bad: "nil value"}
	}
	rs, ok := v.Get().(oc.ResultSet)
	if !ok {
		return Outcome{Bad: fmt.Sprintf("%T", v.Get())}
	}
	o.Cols = rs.Cols
	o.Rows = w.RowsOf(rs)
	return o
}

// RowsOf converts the rows of a result set
func (w *World) RowsOf(rs oc.ResultSet) []ref.Row {
	var rows []ref.Row
	for _, r := range rs.Rows {
		row := ref.Row{}
		for k, v := range r {
			if v == nil {
				row[k] = ref.Raw("nil Value")
				continue
			}
			row[k] = w.Model(v)
		}
		rows = append(rows, row)
	}
	return rows
}

// Ctx makes a context with variables and parameters
func (w *World) Ctx(vars, params map[string]ref.V) *oc.EvalContext {
	ctx := oc.NewEvalContext(w.G)
	for k, v := range vars {
		ctx.SetVar(k, w.Value(v))
	}
	for k, v := range params {
		ctx.SetParameter("$"+k, w.Value(v))
	}
	return ctx
}

// Snapshot reads the graph and checks that all ways of reading it agree
func (w *World) Snapshot() (*ref.Graph, error) {
	g := ref.NewGraph()
	var ids []ref.NodeID
	seen := map[*lpg.Node]bool{}
	i := 0
	for itr := w.G.GetNodes(); itr.Next(); {
		n := itr.Node()
		if seen[n] {
			return nil, fmt.Errorf("node n%d is listed twice", w.nodeName(n))
		}
		seen[n] = true
		ids = append(ids, w.nodeName(n))
		if i++; i > 1000000 {
			return nil, fmt.Errorf("node list does not end")
		}
	}
	if len(ids) != w.G.NumNodes() {
		return nil, fmt.Errorf("NumNodes is %d, but %d nodes are listed", w.G.NumNodes(), len(ids))
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	labels := map[string]map[*lpg.Node]bool{}
	props := func(f func(func(string, interface{}) bool) bool) ref.Map {
		m := ref.Map{}
		f(func(k string, v interface{}) bool {
			m[k] = w.Model(v)
			return true
		})
		return m
	}
	for _, id := range ids {
		n := w.nodes[id]
		l := n.GetLabels().SortedSlice()
		g.PutNode(id, l, props(n.ForEachProperty))
		for _, x := range l {
			if labels[x] == nil {
				labels[x] = map[*lpg.Node]bool{}
			}
			labels[x][n] = true
		}
		if n.GetGraph() != w.G {
			return nil, fmt.Errorf("node n%d is of another graph", id)
		}
	}
	for _, extra := range w.labelUniverse() {
		if labels[extra] == nil {
			labels[extra] = map[*lpg.Node]bool{}
		}
	}
	for l, want := range labels {
		c := 0
		for itr := w.G.GetNodesWithAllLabels(lpg.NewStringSet(l)); itr.Next(); {
			if !want[itr.Node()] {
				return nil, fmt.Errorf("lookup by label %q gives n%d", l, w.nodeName(itr.Node()))
			}
			c++
		}
		if c != len(want) {
			return nil, fmt.Errorf("lookup by label %q gives %d nodes instead of %d", l, c, len(want))
		}
	}
	// Edges: globally, and from both ends
	eseen := map[*lpg.Edge]bool{}
	var eids []ref.EdgeID
	for itr := w.G.GetEdges(); itr.Next(); {
		e := itr.Edge()
		if eseen[e] {
			return nil, fmt.Errorf("relationship e%d is listed twice", w.edgeName(e))
		}
		eseen[e] = true
		if !seen[e.GetFrom()] || !seen[e.GetTo()] {
			return nil, fmt.Errorf("relationship e%d (%s) is dangling", w.edgeName(e), e.GetLabel())
		}
		eids = append(eids, w.edgeName(e))
	}
	if len(eids) != w.G.NumEdges() {
		return nil, fmt.Errorf("NumEdges is %d, but %d relationships are listed", w.G.NumEdges(), len(eids))
	}
	sort.Slice(eids, func(i, j int) bool { return eids[i] < eids[j] })
	out, in := map[*lpg.Edge]int{}, map[*lpg.Edge]int{}
	for _, id := range ids {
		n := w.nodes[id]
		for itr := n.GetEdges(lpg.OutgoingEdge); itr.Next(); {
			e := itr.Edge()
			if e.GetFrom() != n {
				return nil, fmt.Errorf("outgoing relationship e%d of n%d starts elsewhere", w.edgeName(e), id)
			}
			if !eseen[e] {
				return nil, fmt.Errorf("outgoing relationship e%d of n%d is not in the graph", w.edgeName(e), id)
			}
			out[e]++
		}
		for itr := n.GetEdges(lpg.IncomingEdge); itr.Next(); {
			e := itr.Edge()
			if e.GetTo() != n {
				return nil, fmt.Errorf("incoming relationship e%d of n%d ends elsewhere", w.edgeName(e), id)
			}
			if !eseen[e] {
				return nil, fmt.Errorf("incoming relationship e%d of n%d is not in the graph", w.edgeName(e), id)
			}
			in[e]++
		}
	}
	types := map[string]int{}
	for _, id := range eids {
		e := w.edges[id]
		if out[e] != 1 || in[e] != 1 {
			return nil, fmt.Errorf("relationship e%d is listed %d times by its start and %d times by its end", id, out[e], in[e])
		}
		g.PutEdge(id, w.nodeName(e.GetFrom()), w.nodeName(e.GetTo()), e.GetLabel(), props(e.ForEachProperty))
		types[e.GetLabel()]++
	}
	for t, want := range types {
		c := 0
		for itr := w.G.GetEdgesWithAnyLabel(lpg.NewStringSet(t)); itr.Next(); {
			if itr.Edge().GetLabel() != t || !eseen[itr.Edge()] {
				return nil, fmt.Errorf("lookup by type %q gives e%d", t, w.edgeName(itr.Edge()))
			}
			c++
		}
		if c != want {
			return nil, fmt.Errorf("lookup by type %q gives %d relationships instead of %d", t, c, want)
		}
	}
	return g, nil
}

// Universe of labels that are looked up even if no node has them
var Universe = []string{"A", "B", "C", "L", "M", "N"}

func (w *World) labelUniverse() []string { return Universe }

// CheckIndex checks that an indexed lookup agrees with the properties.
// The values are those that are looked up.
func (w *World) CheckIndex(key string, vals []ref.V, edges bool) error {
	for _, v := range vals {
		want := map[interface{}]bool{}
		for itr := w.G.GetNodes(); itr.Next(); {
			if p, ok := itr.Node().GetProperty(key); ok && ref.Same(w.Model(p), v) {
				want[itr.Node()] = true
			}
		}
		c := 0
		all := lpg.NewStringSet()
		_ = all
		itr := w.findNodes(key, v)
		for itr.Next() {
			n := itr.Node()
			if !want[n] {
				return fmt.Errorf("index of %s gives n%d for %s", key, w.nodeName(n), ref.Key(v))
			}
			c++
		}
		if c != len(want) {
			return fmt.Errorf("index of %s gives %d nodes instead of %d for %s", key, c, len(want), ref.Key(v))
		}
	}
	return nil
}

func (w *World) findNodes(key string, v ref.V) (itr lpg.NodeIterator) {
	return w.G.GetNodesWithProperty(key)
}

// Parsed caches parsed queries of one goroutine
type Cache struct {
	m  map[string]oc.Evaluatable
	me map[string]error
	mu sync.Mutex
}

func NewCache() *Cache {
	return &Cache{m: map[string]oc.Evaluatable{}, me: map[string]error{}}
}

// Parse parses text, once
func (c *Cache) Parse(text string) (oc.Evaluatable, error) {
	if e, ok := c.me[text]; ok {
		return nil, e
	}
	if q, ok := c.m[text]; ok {
		return q, nil
	}
	q, err := SafeParse(text)
	if err != nil {
		c.me[text] = err
		return nil, err
	}
	c.m[text] = q
	return q, nil
}

// Forget drops a query from the cache
func (c *Cache) Forget(text string) { delete(c.m, text); delete(c.me, text) }

// PanicError is a panic reported as an error
type PanicError struct{ Text string }

func (p PanicError) Error() string { return "panic: " + p.Text }

// SafeParse parses text and turns panics into a PanicError
func SafeParse(text string) (q oc.Evaluatable, err error) {
	defer func() {
		if r := recover(); r != nil {
			q, err = nil, PanicError{fmt.Sprint(r)}
		}
	}()
	return oc.Parse(text)
}
