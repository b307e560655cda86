package main

// Constants of the code under test: the strings and numbers in its source are
// likely to be where its behaviour changes, so the generators draw on them as
// on other edges. Which values are tried never decides whether they are right.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type dictionary struct {
	Strs []string
	Ints []uint64
}

// dict has a few values even if there is nothing to read.
var dict = dictionary{Strs: []string{"9P2000"}, Ints: []uint64{8192}}

// collect takes the constants out of the source below dir.
func collect(dir string) dictionary {
	strs, ints := map[string]bool{}, map[uint64]bool{}
	var val func(x ast.Expr) constant.Value
	val = func(x ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		switch x := x.(type) {
		case *ast.BasicLit:
			if x.Kind == token.INT || x.Kind == token.CHAR {
				return constant.ToInt(constant.MakeFromLiteral(x.Value, x.Kind, 0))
			}
			if x.Kind == token.STRING {
				return constant.MakeFromLiteral(x.Value, x.Kind, 0)
			}
		case *ast.ParenExpr:
			return val(x.X)
		case *ast.UnaryExpr:
			if a := val(x.X); a != nil && x.Op == token.SUB {
				return constant.UnaryOp(x.Op, a, 0)
			}
		case *ast.BinaryExpr:
			a, b := val(x.X), val(x.Y)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(b); ok && n < 64 {
					return constant.Shift(a, x.Op, uint(n))
				}
			case token.ADD, token.SUB, token.MUL, token.OR, token.AND:
				return constant.BinaryOp(a, x.Op, b)
			}
		}
		return nil
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		for _, d := range f.Decls {
			ast.Inspect(d, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				x, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				switch v := val(x); {
				case v == nil:
				case v.Kind() == constant.String:
					if s := constant.StringVal(v); len(s) <= 300 {
						strs[s] = true
					}
				case v.Kind() == constant.Int:
					if n, ok := constant.Int64Val(v); ok {
						ints[uint64(n)] = true
					} else if n, ok := constant.Uint64Val(v); ok {
						ints[n] = true
					}
				}
				return true
			})
		}
		return nil
	})
	var d dictionary
	for s := range strs {
		d.Strs = append(d.Strs, s)
	}
	all := map[uint64]bool{}
	for n := range ints {
		all[n-1], all[n], all[n+1] = true, true, true
	}
	for n := range all {
		d.Ints = append(d.Ints, n)
	}
	sort.Strings(d.Strs)
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	return d
}

func saveDict(repo, file string) error {
	b, _ := json.Marshal(collect(repo))
	return os.WriteFile(file, b, 0644)
}

func loadDict(file string) {
	var d dictionary
	if b, err := os.ReadFile(file); err == nil && json.Unmarshal(b, &d) == nil && len(d.Strs) > 0 && len(d.Ints) > 0 {
		dict = d
	}
}

func dStr(g *rand.Rand) string { return dict.Strs[g.Intn(len(dict.Strs))] }
func dInt(g *rand.Rand) uint64 { return dict.Ints[g.Intn(len(dict.Ints))] }

// intsTo are the numbers of the dictionary up to max.
func intsTo(max uint64) []uint64 {
	i := sort.Search(len(dict.Ints), func(i int) bool { return dict.Ints[i] > max })
	return dict.Ints[:i]
}

// fileNames are the strings of the dictionary, and what looks like a name
// within them, that can be file names.
func fileNames() []string {
	m := map[string]bool{}
	add := func(s string) {
		if s != "" && s != "." && s != ".." && len(s) <= 255 && !strings.ContainsAny(s, "/\x00") {
			m[s] = true
		}
	}
	for _, s := range dict.Strs {
		add(s)
		for _, sep := range []string{"/", " ", "%", ":", ","} {
			for _, t := range strings.Split(s, sep) {
				add(t)
			}
		}
		if strings.HasPrefix(s, ".") || strings.HasSuffix(s, ".") { // likely a prefix or suffix of names
			add("n" + s)
			add(s + "n")
		}
	}
	l := make([]string, 0, len(m))
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

// dictCases takes every constant of the source through a life on the file
// server: as a name, as a fid, as a size, a place, a time.
func dictCases(r *R, props string, fds, debug bool) {
	l := newUFS(r, false)
	n := 0
	var e *env
	each := func(what string, f func()) {
		if e == nil {
			e = newEnv(r, r.sub("dict", n), fmt.Sprintf("dict%d", n), props)
			e.umaskTo(0)
			e.buildTree(false)
			e.fds = fds
			e.deep = true
			e.connect(l, fmt.Sprintf("dict%d", n), debug, 65536, 0)
			e.begin()
			if !inCase(func() { e.attach(0, NOFID, "me", "") }) {
				e.done()
				e = nil
				return
			}
		}
		n++
		r.tracef("--- %s", what)
		ok := inCase(f)
		r.count("constants of the source tried", 1)
		r.eval("dict " + what)
		if !ok || n%40 == 0 {
			e.done()
			e = nil
		}
	}
	for i, s := range fileNames() {
		each(fmt.Sprintf("name %q", s), func() {
			e.walk(0, 1)
			e.create(1, s, 0644, ORDWR)
			e.write(1, 0, []byte(s))
			e.read(1, 0, 100)
			e.stat(1)
			e.clunk(1)
			e.walk(0, 1, s)
			e.walk(0, 2)
			e.open(2, OREAD)
			e.list(2, func() uint32 { return 4000 })
			e.clunk(2)
			e.open(1, OWRITE|OTRUNC)
			d := noTouch
			d.Name = "other"
			e.wstat(1, d)
			e.clunk(1)
			e.walk(0, 1, "other")
			d = noTouch
			d.Name = s
			d.Mode = 0600
			e.wstat(1, d)
			e.walk(0, 2, s)
			e.remove(2)
			e.clunk(1)
			e.walk(0, 1, "d")
			e.create(1, s, DMDIR|0755, OREAD)
			e.clunk(1)
			e.walk(0, 1, "d", s)
			e.walk(1, 2)
			e.create(2, s, 0600, OWRITE)
			e.clunk(2)
			e.walk(0, 2, "d", s, s, "..", "..", "..", "d", s)
			e.attach(3, NOFID, s, "/d/"+s)
			e.walk(3, 4, s)
			e.stat(4)
			e.stat(3)
			e.walk(0, 6, "d", s) // not empty
			e.remove(6)
			e.remove(4)
			e.remove(2)
			e.clunk(1)
			e.clunk(3)
			if i%3 == 0 {
				e.attach(3, NOFID, "me", s)
				e.clunk(3)
			}
		})
	}
	for _, v := range intsTo(1<<32 - 1) {
		v := v
		each(fmt.Sprint("number ", v), func() {
			f := uint32(v)
			if f != NOFID && f != 0 {
				e.walk(0, f, "a")
				e.stat(f)
				e.open(f, OREAD)
				e.read(f, 0, 100)
				e.probe(f)
				e.walk(f, f)
				e.clunk(f)
				e.probe(f)
				e.attach(f, NOFID, "me", "/d")
				e.create(f, fmt.Sprint("i", v), 0640, ORDWR)
				e.write(f, 0, []byte{1, 2, 3})
				e.remove(f)
				e.probe(f)
			}
			e.walk(0, 1, "big")
			e.open(1, OREAD)
			e.read(1, 0, f)
			e.read(1, v, 100)
			e.read(1, 3, f)
			e.clunk(1)
			e.walk(0, 1)
			e.create(1, "num", 0600, ORDWR)
			e.write(1, v, []byte{1, 2, 3})
			if v <= 100000 {
				e.write(1, 1, make([]byte, v))
				e.write(1, 2, gBytes(e.g, int(v)))
			}
			e.read(1, v, 100)
			d := noTouch
			d.Length = v
			e.wstat(1, d)
			e.stat(1)
			d = noTouch
			d.Mtime = f
			e.wstat(1, d)
			d = noTouch
			d.Atime = f
			e.wstat(1, d)
			d = noTouch
			d.Mode = f & 0777
			e.wstat(1, d)
			e.stat(1)
			e.remove(1)
			e.walk(0, 1)
			e.create(1, "num2", f&0777, ORDWR)
			e.remove(1)
			if v > 0 && v <= 255 {
				e.walk(0, 1)
				name := strings.Repeat("k", int(v))
				e.create(1, name, 0644, OREAD)
				e.clunk(1)
				e.walk(0, 1, name)
				e.remove(1)
			}
			e.walk(0, 1, "d")
			e.open(1, OREAD)
			e.readDir(1, 0, f)
			e.clunk(1)
			if v <= 40 {
				names := []string{}
				for len(names) < int(v) {
					names = append(names, []string{"d", ".."}[len(names)%2])
				}
				e.walk(0, 1, names...)
				e.clunk(1)
			}
			if v >= 24 && v <= 1<<20 && v%2 == 0 {
				e.version(f)
				e.attach(0, NOFID, "me", "")
				e.walk(0, 1, "big")
				e.open(1, OREAD)
				e.read(1, 0, 70000)
				e.version(65536)
				e.attach(0, NOFID, "me", "")
			}
		})
	}
	if e != nil {
		e.done()
	}
	r.need("constants of the source tried", 100)
}
