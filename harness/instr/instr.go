// Package instr adds scheduling points to Go source files: a call before
// every statement. The files themselves are not changed, the result is
// an overlay for the go command.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

// VerifYield is called before every statement
var VerifYield func(int)

//go:norace
func verifYield(id int) {
	if f := VerifYield; f != nil {
		f(id)
	}
}

// VerifGlobals gives the addresses of the variables of the package
func VerifGlobals() []interface{} {
	return []interface{}{%s}
}
`

// The package verifsync replaces sync in the instrumented files: a
// thread that has to wait tells the scheduler
const locks = `package verifsync

import (
	"sync"
	"sync/atomic"
)

// Waiting is called by a thread that waits for another one
var Waiting func()

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

var NewCond = sync.NewCond

func until(f func() bool) {
	for !f() {
		Waiting()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { until(m.m.TryLock) }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()           { until(m.m.TryLock) }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) RLock()          { until(m.m.TryRLock) }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
`

// Overlay instruments the files of the package in dir, and writes the
// results and the overlay file to out. It gives the name of the overlay
// file and the number of scheduling points.
func Overlay(importPath, dir string, files []string, out string) (string, int, error) {
	replace := map[string]string{}
	n := 0
	pkg := ""
	var globals []string
	for _, f := range files {
		path := filepath.Join(dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return "", 0, err
		}
		res, name, vars, count, err := instrument(importPath, path, src, n)
		if err != nil {
			return "", 0, err
		}
		n += count
		globals = append(globals, vars...)
		pkg = name
		to := filepath.Join(out, f)
		if err := os.WriteFile(to, res, 0o644); err != nil {
			return "", 0, err
		}
		replace[path] = to
	}
	to := filepath.Join(out, "zz_verif_yield.go")
	if err := os.WriteFile(to, []byte(fmt.Sprintf(hook, pkg, strings.Join(globals, ", "))), 0o644); err != nil {
		return "", 0, err
	}
	replace[filepath.Join(dir, "zz_verif_yield.go")] = to
	to = filepath.Join(out, "verifsync.go")
	if err := os.WriteFile(to, []byte(locks), 0o644); err != nil {
		return "", 0, err
	}
	replace[filepath.Join(dir, "verifsync", "sync.go")] = to
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	ov := filepath.Join(out, "overlay.json")
	return ov, n, os.WriteFile(ov, b, 0o644)
}

func instrument(importPath, path string, src []byte, first int) ([]byte, string, []string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, "", nil, 0, err
	}
	// Package-level variables and the import of sync
	var globals []string
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				for _, name := range s.(*ast.ValueSpec).Names {
					if name.Name != "_" {
						globals = append(globals, "&"+name.Name)
					}
				}
			}
		}
	}
	insert := map[int]string{}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			p := fset.Position(im.Path.Pos()).Offset
			insert[p] = fmt.Sprintf("%s%q // ", name, importPath+"/verifsync")
		}
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			// Functions that must not be preempted are left alone
			if x.Doc != nil {
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						return false
					}
				}
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// Clauses of switch and select are in the list of a block
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[fset.Position(x.Pos()).Offset] = true
		case *ast.CommClause:
			clause[fset.Position(x.Pos()).Offset] = true
		}
		return true
	})
	for p := range insert {
		at = append(at, p)
	}
	sort.Ints(at)
	var out []byte
	prev, n := 0, 0
	for i, p := range at {
		if t := insert[p]; t != "" {
			out = append(out, src[prev:p]...)
			out = append(out, t...)
			prev = p
			continue
		}
		if clause[p] || i > 0 && at[i-1] == p {
			continue
		}
		out = append(out, src[prev:p]...)
		out = append(out, fmt.Sprintf("verifYield(%d); ", first+n)...)
		prev = p
		n++
	}
	out = append(out, src[prev:]...)
	return out, f.Name.Name, globals, n, nil
}
