// Command instr prepares the instrumented build of the code under test.
//
// It reads the current working tree of the repository and writes, into an output
// directory, copies of its non-test library sources in which every statement is
// preceded by a call to zzvsched.Y(site), a schedule point, and in which "sync" is replaced
// by a drop-in shim whose locks block in virtual time. The insertion is textual and keeps
// line numbers. It also writes the list of sites and a dictionary of the integer and string
// literals that occur in the code (used to bias generators, as a fuzzer dictionary is).
//
// Nothing is written to the repository: the copies are handed to the go command
// through an -overlay file.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	shimSched = "github.com/gostdlib/concurrency/zzverif/vsched"
	shimSync  = "github.com/gostdlib/concurrency/zzverif/vsync"
	shimAtom  = "github.com/gostdlib/concurrency/zzverif/vatomic"
)

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

type edit struct {
	off  int
	end  int // replaced up to end (== off for an insertion)
	text string
	ord  int
}

var (
	sites []site
	ints  = map[int64]bool{}
	strs  = map[string]bool{}
)

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	dep := flag.String("dep", "", "name=dir: a dependency copied to out/dep and instrumented there")
	flag.Parse()
	overlay := map[string]string{}

	skip := map[string]bool{"examples": true, "tools": true, "etoe": true, "testing": true, "benchmarks": true, "testdata": true, ".git": true}
	var files []string
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if p != *repo && (skip[fi.Name()] || strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	sort.Strings(files)
	for i, f := range files {
		rel, _ := filepath.Rel(*repo, f)
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		res, ok := instrument(rel, src, true)
		if !ok {
			continue
		}
		dst := filepath.Join(*out, "src", fmt.Sprintf("%d_%s", i, filepath.Base(f)))
		write(dst, res)
		overlay[f] = dst
	}
	if *dep != "" {
		name, dir, _ := strings.Cut(*dep, "=")
		err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			rel, _ := filepath.Rel(dir, p)
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if strings.HasSuffix(p, ".go") && (strings.HasPrefix(rel, "demux/")) {
				if res, ok := instrument("dep:"+name+"/"+rel, src, false); ok {
					src = res
				}
			}
			write(filepath.Join(*out, "dep", rel), src)
			return nil
		})
		if err != nil {
			fatal(err)
		}
	}
	wj(filepath.Join(*out, "overlay_src.json"), overlay)
	wj(filepath.Join(*out, "sites.json"), sites)
	d := struct {
		Ints []int64  `json:"ints"`
		Strs []string `json:"strs"`
	}{}
	for k := range ints {
		d.Ints = append(d.Ints, k)
	}
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	for k := range strs {
		d.Strs = append(d.Strs, k)
	}
	sort.Strings(d.Strs)
	wj(filepath.Join(*out, "dict.json"), d)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

func write(p string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal(err)
	}
}

func wj(p string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal(err)
	}
	write(p, b)
}

func instrument(name string, src []byte, dict bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		// Leave it alone: the compiler reports it.
		return nil, false
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	line := func(p token.Pos) int { return fset.Position(p).Line }
	var edits []edit
	add := func(o, e int, t string) { edits = append(edits, edit{o, e, t, len(edits)}) }
	fn := ""
	nsites := 0
	newSite := func(p token.Pos) int {
		id := len(sites)
		sites = append(sites, site{ID: id, File: name, Line: line(p), Fn: fn})
		nsites++
		return id
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.EmptyStmt, *ast.BadStmt:
				continue
			case *ast.DeferStmt:
				// Deferred calls run without a statement in between: add deferred schedule points.
				add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzvsched.Y(%d); defer zzvsched.Y(%d); ", newSite(s.Pos()), newSite(s.Pos())))
				add(off(s.End()), off(s.End()), fmt.Sprintf("; defer zzvsched.Y(%d)", newSite(s.Pos())))
			default:
				add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzvsched.Y(%d); ", newSite(s.Pos())))
			}
		}
	}
	for _, d := range f.Decls {
		fn = ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") {
						goto next
					}
				}
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				if !clauses(n.List) {
					list(n.List)
				}
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.BinaryExpr: // 1<<12, 64*1024
				x, ok1 := n.X.(*ast.BasicLit)
				y, ok2 := n.Y.(*ast.BasicLit)
				if dict && ok1 && ok2 && x.Kind == token.INT && y.Kind == token.INT {
					a, err1 := strconv.ParseInt(x.Value, 0, 32)
					b, err2 := strconv.ParseInt(y.Value, 0, 32)
					switch {
					case err1 != nil || err2 != nil:
					case n.Op == token.SHL && b < 20 && a<<b <= 1<<20:
						ints[a<<b] = true
					case n.Op == token.MUL && a*b <= 1<<20:
						ints[a*b] = true
					}
				}
			case *ast.BasicLit:
				if !dict {
					return true
				}
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && v >= 0 && v <= 1<<20 {
						ints[v] = true
					}
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil && len(v) > 0 && len(v) <= 24 {
						strs[v] = true
					}
				}
			}
			return true
		})
	next:
	}
	for _, im := range f.Imports {
		shim, alias := "", ""
		switch im.Path.Value {
		case `"sync"`:
			shim, alias = shimSync, "sync "
		case `"sync/atomic"`:
			shim, alias = shimAtom, "atomic "
		default:
			continue
		}
		if im.Name != nil {
			alias = "" // the existing name stays in front
		}
		add(off(im.Path.Pos()), off(im.Path.End()), alias+strconv.Quote(shim))
	}
	if len(edits) == 0 {
		return nil, false
	}
	if nsites > 0 {
		o := off(f.Name.End())
		add(o, o, "; import zzvsched "+strconv.Quote(shimSched))
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].ord < edits[j].ord
	})
	var b []byte
	at := 0
	for _, e := range edits {
		b = append(b, src[at:e.off]...)
		b = append(b, e.text...)
		at = e.end
	}
	b = append(b, src[at:]...)
	return b, true
}

func clauses(l []ast.Stmt) bool {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}
