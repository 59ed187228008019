// Package inst inserts scheduling points into Go source: a call before every
// statement, on the same line, and package sync replaced by a cooperative one.
package inst

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const syncPkg = "github.com/opencoff/sigtool/internal/verifsync"

// Point is an inserted scheduling point.
type Point struct {
	File   string
	Line   int
	Global bool // the statement mentions package-level variables or package sync
}

// Package instruments the Go files of dir (without tests) and returns them for an
// overlay, with the support code added.
func Package(dir string) (map[string][]byte, []Point, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	out := map[string][]byte{}
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	src := map[string][]byte{}
	var names []string
	globals := map[string]bool{"sync": true}
	pkg := ""
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		fn := filepath.Join(dir, n)
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, nil, err
		}
		f, err := parser.ParseFile(fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, err
		}
		names = append(names, fn)
		files[fn], src[fn], pkg = f, b, f.Name.Name
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						globals[id.Name] = true
					}
				}
			}
		}
	}
	var points []Point
	for _, fn := range names {
		f := files[fn]
		type ins struct {
			at   int
			text string
			del  int
		}
		var edits []ins
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				t := `"` + syncPkg + `"`
				if im.Name == nil {
					t = "sync " + t
				}
				edits = append(edits, ins{off(im.Path.Pos()), t, len(im.Path.Value)})
			}
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				p := Point{File: fn, Line: fset.Position(s.Pos()).Line}
				head(s, func(n ast.Node) {
					if id, ok := n.(*ast.Ident); ok && globals[id.Name] {
						p.Global = true
					}
				})
				edits = append(edits, ins{off(s.Pos()), fmt.Sprintf("verifPoint(%d); ", len(points)), 0})
				points = append(points, p)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		// the clauses of a switch are statements of its block: not those
		edits2 := edits[:0]
		clause := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CaseClause:
				clause[off(x.Pos())] = true
			case *ast.CommClause:
				clause[off(x.Pos())] = true
			}
			return true
		})
		for _, e := range edits {
			if !(clause[e.at] && strings.HasPrefix(e.text, "verifPoint")) {
				edits2 = append(edits2, e)
			}
		}
		edits = edits2
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		var sb strings.Builder
		last := 0
		for _, e := range edits {
			sb.Write(src[fn][last:e.at])
			sb.WriteString(e.text)
			last = e.at + e.del
		}
		sb.Write(src[fn][last:])
		out[fn] = []byte(sb.String())
	}
	out[filepath.Join(dir, "zz_verif_points.go")] = []byte(strings.Replace(support, "PKG", pkg, 1))
	out[filepath.Join(filepath.Dir(dir), "internal", "verifsync", "sync.go")] = []byte(syncSrc)
	return out, points, nil
}

// head visits the parts of a statement that are executed at its point, not the
// statements nested in it.
func head(s ast.Stmt, f func(ast.Node)) {
	ast.Inspect(s, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		if _, ok := n.(*ast.BlockStmt); ok {
			return false
		}
		f(n)
		return true
	})
}

const support = `package PKG

import "` + syncPkg + `"

var verifHook func(id int)

// VerifHooks installs the scheduler.
func VerifHooks(point func(id int), block, unblock func()) {
	verifHook = point
	verifsync.Block, verifsync.Unblock = block, unblock
}

//go:norace
//go:noinline
func verifPoint(id int) {
	if verifHook != nil {
		verifHook(id)
	}
}
`

const syncSrc = `// Package verifsync is package sync for code under a controlled scheduler.
package verifsync

import "sync"

// Block is called by a thread that cannot go on before something is released,
// Unblock when something was released.
var Block, Unblock func()

type (
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

//go:norace
func block() {
	if Block != nil {
		Block()
	}
}

//go:norace
func unblock() {
	if Unblock != nil {
		Unblock()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { return m.m.TryLock() }

func (m *Mutex) Lock() {
	if Block == nil {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		block()
	}
}

func (m *Mutex) Unlock() { m.m.Unlock(); unblock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

func (m *RWMutex) Lock() {
	if Block == nil {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		block()
	}
}

func (m *RWMutex) RLock() {
	if Block == nil {
		m.m.RLock()
		return
	}
	for !m.m.TryRLock() {
		block()
	}
}

func (m *RWMutex) Unlock()  { m.m.Unlock(); unblock() }
func (m *RWMutex) RUnlock() { m.m.RUnlock(); unblock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out what was put in last.
type Pool struct {
	New func() any
	m   sync.Mutex
	xs  []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.xs = append(p.xs, x)
	p.m.Unlock()
}
`
