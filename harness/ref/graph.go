package ref

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// Node and Edge are the elements of a model graph
type Node struct {
	Labels []string // sorted, unique
	Props  Map
}

type Edge struct {
	From, To NodeID
	Type     string
	Props    Map
}

type Graph struct {
	Nodes map[NodeID]*Node
	Edges map[EdgeID]*Edge
	nextN NodeID
	nextE EdgeID

	once sync.Once
	text string
}

func NewGraph() *Graph {
	return &Graph{Nodes: map[NodeID]*Node{}, Edges: map[EdgeID]*Edge{}}
}

func sortedKeys(m Map) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func cloneMap(m Map) Map {
	r := make(Map, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (g *Graph) Clone() *Graph {
	r := &Graph{Nodes: make(map[NodeID]*Node, len(g.Nodes)), Edges: make(map[EdgeID]*Edge, len(g.Edges)), nextN: g.nextN, nextE: g.nextE}
	for k, n := range g.Nodes {
		r.Nodes[k] = &Node{Labels: append([]string(nil), n.Labels...), Props: cloneMap(n.Props)}
	}
	for k, n := range g.Edges {
		r.Edges[k] = &Edge{From: n.From, To: n.To, Type: n.Type, Props: cloneMap(n.Props)}
	}
	return r
}

func normLabels(l []string) []string {
	m := map[string]bool{}
	r := []string{}
	for _, x := range l {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

func (g *Graph) AddNode(labels []string, props Map) NodeID {
	id := g.nextN
	g.nextN++
	if props == nil {
		props = Map{}
	}
	g.Nodes[id] = &Node{Labels: normLabels(labels), Props: props}
	return id
}

func (g *Graph) AddEdge(from, to NodeID, typ string, props Map) EdgeID {
	id := g.nextE
	g.nextE++
	if props == nil {
		props = Map{}
	}
	g.Edges[id] = &Edge{From: from, To: to, Type: typ, Props: props}
	return id
}

// NodeIDs returns the ids in order of creation
func (g *Graph) NodeIDs() []NodeID {
	r := make([]NodeID, 0, len(g.Nodes))
	for i := NodeID(0); i < g.nextN; i++ {
		if g.Nodes[i] != nil {
			r = append(r, i)
		}
	}
	return r
}

func (g *Graph) EdgeIDs() []EdgeID {
	r := make([]EdgeID, 0, len(g.Edges))
	for i := EdgeID(0); i < g.nextE; i++ {
		if g.Edges[i] != nil {
			r = append(r, i)
		}
	}
	return r
}

// Next returns the next ids
func (g *Graph) Next() (NodeID, EdgeID) { return g.nextN, g.nextE }

func (g *Graph) HasLabel(n NodeID, l string) bool {
	for _, x := range g.Nodes[n].Labels {
		if x == l {
			return true
		}
	}
	return false
}

func (g *Graph) String() string {
	b := strings.Builder{}
	for _, id := range g.NodeIDs() {
		n := g.Nodes[id]
		fmt.Fprintf(&b, "(n%d", id)
		for _, l := range n.Labels {
			b.WriteString(":" + l)
		}
		if len(n.Props) > 0 {
			b.WriteString(" " + Key(n.Props))
		}
		b.WriteString(") ")
	}
	for _, id := range g.EdgeIDs() {
		e := g.Edges[id]
		fmt.Fprintf(&b, "(n%d)-[e%d:%s", e.From, id, e.Type)
		if len(e.Props) > 0 {
			b.WriteString(" " + Key(e.Props))
		}
		fmt.Fprintf(&b, "]->(n%d) ", e.To)
	}
	return strings.TrimSpace(b.String())
}

// Row is a row of results
type Row map[string]V

func (r Row) Key() string { return Key(Map(r)) }

// Canon gives a text for a graph and rows that is the same for two
// inputs iff they are equal up to renaming of the nodes and edges whose
// ids are at least fixedN and fixedE. If ordered is false, the order of
// the rows does not matter.
//
// The new elements are divided into components that are connected by new
// edges and by rows. The components are named independently.
func Canon(g *Graph, rows []Row, ordered bool, fixedN NodeID, fixedE EdgeID) string {
	freeNode := func(n NodeID) bool { return n >= fixedN && g.Nodes[n] != nil }
	freeEdge := func(e EdgeID) bool { return e >= fixedE && g.Edges[e] != nil }
	var items []interface{}
	index := map[interface{}]int{}
	for _, n := range g.NodeIDs() {
		if freeNode(n) {
			index[n] = len(items)
			items = append(items, n)
		}
	}
	for _, e := range g.EdgeIDs() {
		if freeEdge(e) {
			index[e] = len(items)
			items = append(items, e)
		}
	}
	up := make([]int, len(items))
	for i := range up {
		up[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		if up[i] != i {
			up[i] = find(up[i])
		}
		return up[i]
	}
	join := func(a, b interface{}) { up[find(index[a])] = find(index[b]) }
	for _, e := range g.EdgeIDs() {
		x := g.Edges[e]
		if freeEdge(e) {
			if freeNode(x.From) {
				join(e, x.From)
			}
			if freeNode(x.To) {
				join(e, x.To)
			}
		}
	}
	var walk func(v V, f func(interface{}))
	walk = func(v V, f func(interface{})) {
		switch x := v.(type) {
		case NodeID:
			if freeNode(x) {
				f(x)
			}
		case EdgeID:
			if freeEdge(x) {
				f(x)
			}
		case PathV:
			for _, e := range x {
				walk(e, f)
			}
		case List:
			for _, e := range x {
				walk(e, f)
			}
		case Map:
			for _, e := range x {
				walk(e, f)
			}
		}
	}
	first := make([]interface{}, len(rows))
	for i, r := range rows {
		for _, v := range r {
			walk(v, func(x interface{}) {
				if first[i] == nil {
					first[i] = x
				} else {
					join(x, first[i])
				}
			})
		}
	}
	comps := map[int]*component{}
	comp := func(k int) *component {
		c := comps[k]
		if c == nil {
			c = &component{}
			comps[k] = c
		}
		return c
	}
	for i, it := range items {
		c := comp(find(i))
		if n, ok := it.(NodeID); ok {
			c.nodes = append(c.nodes, n)
		} else {
			c.edges = append(c.edges, it.(EdgeID))
		}
	}
	fixed := &component{}
	for i, r := range rows {
		c := fixed
		if first[i] != nil {
			c = comps[find(index[first[i]])]
		}
		c.rows = append(c.rows, r)
		c.pos = append(c.pos, i)
	}
	for _, n := range g.NodeIDs() {
		if !freeNode(n) {
			fixed.nodes = append(fixed.nodes, n)
		}
	}
	for _, e := range g.EdgeIDs() {
		if !freeEdge(e) {
			fixed.edges = append(fixed.edges, e)
		}
	}
	name, ename := map[NodeID]string{}, map[EdgeID]string{}
	for _, n := range fixed.nodes {
		name[n] = fmt.Sprintf("n%d", n)
	}
	for _, e := range fixed.edges {
		ename[e] = fmt.Sprintf("e%d", e)
	}
	var texts []string
	for _, c := range comps {
		texts = append(texts, c.canon(g, ordered, name, ename, freeNode, freeEdge))
	}
	sort.Strings(texts)
	return strings.Join(append([]string{fixed.render(g, ordered, name, ename)}, texts...), " | ")
}

type component struct {
	nodes []NodeID
	edges []EdgeID
	rows  []Row
	pos   []int
}

func (c *component) canon(g *Graph, ordered bool, name map[NodeID]string, ename map[EdgeID]string, freeNode func(NodeID) bool, freeEdge func(EdgeID) bool) string {
	if len(c.nodes) <= 1 && len(c.edges) <= 1 {
		for _, n := range c.nodes {
			name[n] = "N0"
		}
		for _, e := range c.edges {
			ename[e] = "E0"
		}
		return c.render(g, ordered, name, ename)
	}
	color, ecolor := map[NodeID]string{}, map[EdgeID]string{}
	for k, v := range name {
		if !freeNode(k) {
			color[k] = v
		}
	}
	for k, v := range ename {
		if !freeEdge(k) {
			ecolor[k] = v
		}
	}
	for _, n := range c.nodes {
		color[n] = strings.Join(g.Nodes[n].Labels, ":") + Key(g.Nodes[n].Props)
	}
	for _, e := range c.edges {
		ecolor[e] = g.Edges[e].Type + Key(g.Edges[e].Props)
	}
	// Refine the colors by the rows and the relationships
	for round := 0; round < 4; round++ {
		nsig, esig := map[NodeID][]string{}, map[EdgeID][]string{}
		for i, r := range c.rows {
			text := Key(renameRow(r, color, ecolor))
			if ordered {
				text = fmt.Sprint(c.pos[i]) + text
			}
			for k, v := range r {
				switch x := v.(type) {
				case NodeID:
					if freeNode(x) {
						nsig[x] = append(nsig[x], k+text)
					}
				case EdgeID:
					if freeEdge(x) {
						esig[x] = append(esig[x], k+text)
					}
				}
			}
		}
		for _, e := range c.edges {
			x := g.Edges[e]
			if freeNode(x.From) {
				nsig[x.From] = append(nsig[x.From], ">"+ecolor[e]+color[x.To])
			}
			if freeNode(x.To) {
				nsig[x.To] = append(nsig[x.To], "<"+ecolor[e]+color[x.From])
			}
			esig[e] = append(esig[e], color[x.From]+">"+color[x.To])
		}
		for _, n := range c.nodes {
			sort.Strings(nsig[n])
			nsig[n] = append(nsig[n], color[n])
		}
		for _, e := range c.edges {
			sort.Strings(esig[e])
			esig[e] = append(esig[e], ecolor[e])
		}
		for _, n := range c.nodes {
			color[n] = shorten(strings.Join(nsig[n], ";"))
		}
		for _, e := range c.edges {
			ecolor[e] = shorten(strings.Join(esig[e], ";"))
		}
	}
	sort.SliceStable(c.nodes, func(i, j int) bool { return color[c.nodes[i]] < color[c.nodes[j]] })
	best := ""
	permuteClasses(len(c.nodes), func(i, j int) bool { return color[c.nodes[i]] == color[c.nodes[j]] }, func(p []int) bool {
		for i, k := range p {
			name[c.nodes[k]] = fmt.Sprintf("N%d", i)
		}
		sig := map[EdgeID]string{}
		for _, e := range c.edges {
			x := g.Edges[e]
			sig[e] = ecolor[e] + name[x.From] + ">" + name[x.To]
		}
		fe := append([]EdgeID(nil), c.edges...)
		sort.SliceStable(fe, func(i, j int) bool { return sig[fe[i]] < sig[fe[j]] })
		permuteClasses(len(fe), func(i, j int) bool { return sig[fe[i]] == sig[fe[j]] }, func(q []int) bool {
			for i, k := range q {
				ename[fe[k]] = fmt.Sprintf("E%d", i)
			}
			s := c.render(g, ordered, name, ename)
			if best == "" || s < best {
				best = s
			}
			// Edges that are alike can only be told apart by rows
			return len(c.rows) > 0
		})
		return true
	})
	return best
}

func shorten(s string) string {
	if len(s) < 64 {
		return s
	}
	// FNV-1a, twice
	h1, h2 := uint64(14695981039346656037), uint64(1099511628211)
	for i := 0; i < len(s); i++ {
		h1 = (h1 ^ uint64(s[i])) * 1099511628211
		h2 = (h2 ^ uint64(s[len(s)-1-i])) * 14695981039346656037
	}
	return fmt.Sprintf("#%016x%016x", h1, h2)
}

// permuteClasses enumerates the permutations of 0..n-1 that only
// exchange adjacent members of the same class
func permuteClasses(n int, same func(i, j int) bool, f func([]int) bool) {
	cls := make([]int, n)
	for i := 1; i < n; i++ {
		cls[i] = cls[i-1]
		if !same(i-1, i) {
			cls[i]++
		}
	}
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(p)
		}
		for k := 0; k < n; k++ {
			if !used[k] && cls[k] == cls[i] {
				used[k] = true
				p[i] = k
				ok := rec(i + 1)
				used[k] = false
				if !ok {
					return false
				}
			}
		}
		return true
	}
	rec(0)
}

func rename(v V, name map[NodeID]string, ename map[EdgeID]string) V {
	switch x := v.(type) {
	case NodeID:
		if s, ok := name[x]; ok {
			return Raw(s)
		}
		return Raw("gone")
	case EdgeID:
		if s, ok := ename[x]; ok {
			return Raw(s)
		}
		return Raw("gone")
	case PathV:
		if len(x) == 1 {
			return rename(x[0], name, ename)
		}
		s := "path"
		for _, e := range x {
			s += "_" + string(rename(e, name, ename).(Raw))
		}
		return Raw(s)
	case List:
		l := List{}
		for _, e := range x {
			l = append(l, rename(e, name, ename))
		}
		return l
	case Map:
		m := Map{}
		for k, e := range x {
			m[k] = rename(e, name, ename)
		}
		return m
	}
	return v
}

func renameRow(r Row, name map[NodeID]string, ename map[EdgeID]string) Map {
	return rename(Map(r), name, ename).(Map)
}

func (c *component) render(g *Graph, ordered bool, name map[NodeID]string, ename map[EdgeID]string) string {
	var ns, es, rs []string
	for _, id := range c.nodes {
		n := g.Nodes[id]
		ns = append(ns, name[id]+"("+strings.Join(n.Labels, ":")+Key(n.Props)+")")
	}
	sort.Strings(ns)
	for _, id := range c.edges {
		e := g.Edges[id]
		es = append(es, ename[id]+"("+name[e.From]+">"+name[e.To]+":"+e.Type+Key(e.Props)+")")
	}
	sort.Strings(es)
	for i, r := range c.rows {
		s := Key(renameRow(r, name, ename))
		if ordered {
			s = fmt.Sprintf("#%d", c.pos[i]) + s
		}
		rs = append(rs, s)
	}
	sort.Strings(rs)
	return strings.Join(ns, " ") + " / " + strings.Join(es, " ") + " / " + strings.Join(rs, " ; ")
}

// PutNode adds a node with a given id
func (g *Graph) PutNode(id NodeID, labels []string, props Map) {
	g.Nodes[id] = &Node{Labels: normLabels(labels), Props: props}
	if id >= g.nextN {
		g.nextN = id + 1
	}
}

func (g *Graph) PutEdge(id EdgeID, from, to NodeID, typ string, props Map) {
	g.Edges[id] = &Edge{From: from, To: to, Type: typ, Props: props}
	if id >= g.nextE {
		g.nextE = id + 1
	}
}

// Text is the text of the graph, which must not change any more
func (g *Graph) Text() string {
	g.once.Do(func() { g.text = g.String() })
	return g.text
}

// SetNext sets the ids of the next elements
func (g *Graph) SetNext(n NodeID, e EdgeID) { g.nextN, g.nextE = n, e }
