// Command instr generates a `go build -overlay` file in which the packages under
// check are instrumented for controlled execution:
//
//   - a scheduling point rt.P() before every statement of every block,
//   - time.Now / time.Since / time.Until replaced by the virtual clock,
//   - sync.Mutex / RWMutex / Once / WaitGroup / Cond replaced by controlled shims,
//   - `go f(x)` replaced by rt.Go(...).
//
// It works on the token level of whatever source is in the tree at check time and
// knows nothing about the names or the structure of the code it instruments.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const rtPath = "verif.local/mc/rt"

type edit struct {
	off, end int
	text     string
}

type mode struct {
	points bool // insert scheduling points and sync shims
}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: instr OUTDIR REPO GOCACHEDIR")
		os.Exit(2)
	}
	out, repo, gocache := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	n := 0
	do := func(path string, m mode) {
		src, err := os.ReadFile(path)
		if err != nil {
			fatal(err)
		}
		res, err := instrument(path, src, m)
		if err != nil {
			fatal(err)
		}
		if res == nil {
			return
		}
		n++
		dst := filepath.Join(out, fmt.Sprintf("f%04d_%s", n, filepath.Base(path)))
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			fatal(err)
		}
		replace[path] = dst
	}
	// Everything of the repository except generated messages, mocks and examples. With
	// MC_POINTS=0 only the clock is instrumented (used when the rest does not compile).
	points := os.Getenv("MC_POINTS") != "0"
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			b := info.Name()
			top := filepath.Dir(p) == filepath.Clean(repo)
			if p != repo && (b == "mock" || b == "paseto" || b == "testdata" || strings.HasPrefix(b, ".") || top && (b == "api" || b == "examples")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || filepath.Base(p) == "tools.go" {
			return nil
		}
		do(p, mode{points: points})
		return nil
	})
	// go-cache: only the clock and the janitor (its operations are atomic under its own lock).
	// The module cache cannot be overlaid, so a copy is made and go.mod points at it.
	gc := filepath.Join(out, "gocache")
	os.MkdirAll(gc, 0o755)
	os.WriteFile(filepath.Join(gc, "go.mod"), []byte("module github.com/patrickmn/go-cache\n\ngo 1.21\n"), 0o644)
	fs, _ := filepath.Glob(filepath.Join(gocache, "*.go"))
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		res, err := instrument(p, src, mode{})
		if err != nil {
			fatal(err)
		}
		if res == nil {
			res = src
		}
		if err := os.WriteFile(filepath.Join(gc, filepath.Base(p)), res, 0o644); err != nil {
			fatal(err)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("instrumented %d files\n", n)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}

func instrument(path string, src []byte, m mode) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	names := map[string]string{} // import path -> local name
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		name := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		names[p] = name
	}
	timeN, syncN := names["time"], names["sync"]
	var edits []edit
	point := func(list []ast.Stmt) {
		if !m.points {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "zzrt.P();"})
		}
	}
	usedTime, usedSync := false, false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			point(x.List)
		case *ast.CaseClause:
			point(x.Body)
		case *ast.CommClause:
			point(x.Body)
		case *ast.GoStmt:
			// go f(a, b)  ->  zzrt.Go(func() func() { f, a := f, a; return func() { f(a) } }())
			c := x.Call
			edits = append(edits, edit{off(x.Pos()), off(c.Pos()), "zzrt.Go(func() func() { zzf := "})
			var ps []string
			// text between Fun end and Lparen is "", so split args
			if len(c.Args) == 0 {
				edits = append(edits, edit{off(c.Lparen), off(c.Rparen) + 1, "; return func() { zzf() } }())"})
			} else {
				for i := range c.Args {
					ps = append(ps, fmt.Sprintf("zza%d", i))
				}
				ell := ""
				if c.Ellipsis.IsValid() {
					ell = "..."
					edits = append(edits, edit{off(c.Ellipsis), off(c.Ellipsis) + 3, ""})
				}
				edits = append(edits, edit{off(c.Lparen), off(c.Lparen) + 1, "; " + strings.Join(ps, ", ") + " := "})
				edits = append(edits, edit{off(c.Rparen), off(c.Rparen) + 1, "; return func() { zzf(" + strings.Join(ps, ", ") + ell + ") } }())"})
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			if timeN != "" && id.Name == timeN {
				switch x.Sel.Name {
				case "Now", "Since", "Until", "Sleep", "After", "NewTicker":
					if x.Sel.Name == "NewTicker" && m.points {
						return true
					}
					usedTime = true
					edits = append(edits, edit{off(x.Pos()), off(x.End()), "zzrt." + x.Sel.Name})
				}
			}
			if m.points && syncN != "" && id.Name == syncN {
				switch x.Sel.Name {
				case "Mutex", "RWMutex", "Once", "WaitGroup", "Cond", "NewCond", "OnceFunc", "OnceValue", "OnceValues":
					usedSync = true
					edits = append(edits, edit{off(x.Pos()), off(x.End()), "zzrt." + x.Sel.Name})
				}
			}
		}
		return true
	})
	if len(edits) == 0 {
		return nil, nil
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import zzrt \"" + rtPath + "\""})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].end < edits[j].end
	})
	var sb strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			return nil, fmt.Errorf("%s: overlapping edits at %d", path, e.off)
		}
		sb.Write(src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(src[pos:])
	sb.WriteString("\nvar _ = zzrt.P\n")
	if usedTime {
		fmt.Fprintf(&sb, "var _ = %s.Unix\n", timeN)
	}
	if usedSync {
		fmt.Fprintf(&sb, "var _ %s.Locker\n", syncN)
	}
	return []byte(sb.String()), nil
}
