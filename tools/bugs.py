#!/usr/bin/env python3
"""bugs.py SPEC.py: makes planted bugs from a list of
(id, property, [(file, old, new)...], needs, breaks, test body or full file)"""
import sys,subprocess,os,json
R='/tmp/bug/repo'
HEAD='''package opencypher

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/cloudprivacylabs/lpg/v2"
)

var _ = fmt.Sprint
var _ = sort.Strings
var _ = strings.Join

// zz evaluates queries in new contexts of one graph, and gives the rows of the last one
func zz(t *testing.T, g *lpg.Graph, queries ...string) string {
	t.Helper()
	out := ""
	for _, q := range queries {
		out = zzCtx(t, NewEvalContext(g), q)
	}
	return out
}

func zzCtx(t *testing.T, ctx *EvalContext, q string) string {
	t.Helper()
	v, err := ParseAndEvaluate(q, ctx)
	if err != nil {
		return "error"
	}
	rs, ok := v.Get().(ResultSet)
	if !ok {
		return fmt.Sprint(v)
	}
	rows := []string{}
	for _, r := range rs.Rows {
		cells := []string{}
		for k, c := range r {
			s := fmt.Sprint(c.Get())
			if c.Get() == nil {
				s = "null"
			}
			cells = append(cells, k+"="+s)
		}
		sort.Strings(cells)
		rows = append(rows, strings.Join(cells, ","))
	}
	return strings.Join(rows, ";")
}

func zzSame(t *testing.T, got, want string) {
	t.Helper()
	if got != want {
		t.Errorf("got %q, want %q", got, want)
	}
}

func TestZZDemo(t *testing.T) {
'''
exec(open(sys.argv[1]).read())
for id,prop,edits,needs,breaks,body in BUGS:
    if len(sys.argv)>2 and id not in sys.argv[2:]: continue
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    bad=False
    for f,a,b in edits:
        s=open(R+'/'+f).read()
        if s.count(a)!=1: print(id,'MATCHES',s.count(a),f,repr(a[:60])); bad=True; break
        open(R+'/'+f,'w').write(s.replace(a,b))
    if bad: continue
    if not body.startswith('package'): body=HEAD+body+'\n}\n'
    subprocess.run(['bash','/verif/tools/newbug.sh',id,prop,needs,breaks],input=body,text=True,check=True)
