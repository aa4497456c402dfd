package grammar

import "testing"

func TestQ(t *testing.T) {
	g := New()
	for _, q := range []string{"RETURN 1", "match (n:A {p:1})-[e*1..2]->() where n.p=1 return n ;", "RETURN 1..2", "RETURN", "RETURN 'a", "RETURN a:b", "CALL x.y()", "RETURN 1 // x", "RETURN [x in y where z|1]", "MATCH (n)--(m) RETURN (n)-->(m)"} {
		v := g.Query(q)
		t.Log(q, v.OK, v.Call, len(v.Toks))
	}
}
func BenchmarkQ(b *testing.B) {
	g := New()
	for i := 0; i < b.N; i++ {
		g.Query("match (n:A {p:1})-[e*1..2]->() where n.p=1 return n, n.p + 1 as x")
	}
}
