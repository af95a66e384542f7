// Command instrument writes an instrumented copy of the library's packages and
// a build overlay that puts it in their place:
//
//   - every iteration over a map asks mcrt for its order;
//   - with -yield, every statement is preceded by a scheduling point;
//   - mcrt.Reset puts the package variables back to their initial values.
//
// It works on whatever the source is: it only looks at types and syntax.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo  = flag.String("repo", "/repo", "library")
	out   = flag.String("out", "", "output directory")
	yield = flag.Bool("yield", false, "insert scheduling points")
)

type pkg struct {
	ImportPath, Dir, Name string
	GoFiles               []string
	Standard              bool
	DepOnly               bool
	Module                *struct{ Main bool }
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

type edit struct {
	at   int
	end  int
	text string
	rank int
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder
}

func (f *file) insert(at int, s string) { f.edits = append(f.edits, edit{at, at, s, len(f.edits)}) }
func (f *file) replace(at, end int, s string) {
	f.edits = append(f.edits, edit{at, end, s, len(f.edits)})
}

func (f *file) render() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].at < f.edits[j].at })
	var b strings.Builder
	p := 0
	for _, e := range f.edits {
		b.Write(f.src[p:e.at])
		b.WriteString(e.text)
		p = e.end
	}
	b.Write(f.src[p:])
	b.WriteString("\n")
	b.WriteString(f.tail.String())
	return []byte(b.String())
}

type chain struct {
	own map[string]*types.Package
	std types.Importer
}

func (c *chain) Import(p string) (*types.Package, error) {
	if q := c.own[p]; q != nil {
		return q, nil
	}
	return c.std.Import(p)
}

var serial int

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Standard,DepOnly,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	data, err := cmd.Output()
	check(err)
	dec := json.NewDecoder(strings.NewReader(string(data)))
	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := &chain{own: map[string]*types.Package{}, std: importer.ForCompiler(fset, "source", nil)}
	check(os.MkdirAll(*out, 0o755))
	for n := 0; ; n++ {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		if p.Standard || p.Module == nil || !p.Module.Main {
			continue
		}
		do(fset, imp, &p, overlay)
	}
	o, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), o, 0o644))
}

func do(fset *token.FileSet, imp *chain, p *pkg, overlay map[string]string) {
	var files []*file
	var asts []*ast.File
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		check(err)
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		check(err)
		files = append(files, &file{path: path, src: src, ast: a})
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, asts, info)
	check(err)
	imp.own[p.ImportPath] = tp
	if p.Name == "main" {
		return
	}
	fileOf := func(pos token.Pos) *file {
		name := fset.Position(pos).Filename
		for _, f := range files {
			if f.path == name {
				return f
			}
		}
		return nil
	}
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	text := func(f *file, n ast.Node) string { return string(f.src[off(n.Pos()):off(n.End())]) }

	var inits, resets []string
	userInits := 0
	for _, f := range files {
		mapsUsed := false
		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.RangeStmt:
				tv, ok := info.Types[t.X]
				if !ok {
					return true
				}
				if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
					return true
				}
				serial++
				e, v, o := fmt.Sprint("mcE", serial), fmt.Sprint("mcV", serial), fmt.Sprint("mcO", serial)
				f.replace(off(t.For), off(t.X.Pos()), "for _, "+e+" := range mcrt_.Order(")
				f.insert(off(t.X.End()), ")")
				pre := v + ", " + o + " := " + e + ".Get(); if !" + o + " { continue }; _ = " + v + "; "
				key, val := "_", "_"
				if t.Key != nil {
					key = text(f, t.Key)
				}
				if t.Value != nil {
					val = text(f, t.Value)
				}
				if key != "_" || val != "_" {
					pre += key + ", " + val + " " + t.Tok.String() + " " + e + ".K, " + v + "; "
				}
				f.insert(off(t.Body.Lbrace)+1, pre+"{")
				f.insert(off(t.Body.Rbrace), "}")
			case *ast.SelectorExpr:
				id, ok := t.X.(*ast.Ident)
				if !ok {
					return true
				}
				if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" {
					switch t.Sel.Name {
					case "Keys", "Values", "All":
						f.replace(off(id.Pos()), off(id.End()), "mcrt_")
						if !mapsUsed {
							mapsUsed = true
							fmt.Fprintf(&f.tail, "var _ = %s.Keys[map[int]int]\n", id.Name)
						}
					}
				}
			case *ast.BlockStmt:
				if *yield {
					for _, s := range t.List {
						stmt(f, off, s)
					}
				}
			case *ast.CaseClause:
				if *yield {
					for _, s := range t.Body {
						stmt(f, off, s)
					}
				}
			case *ast.CommClause:
				if *yield {
					for _, s := range t.Body {
						stmt(f, off, s)
					}
				}
			case *ast.FuncDecl:
				if t.Recv == nil && t.Name.Name == "init" {
					name := "mcUserInit" + strconv.Itoa(userInits)
					userInits++
					f.replace(off(t.Name.Pos()), off(t.Name.End()), name)
					inits = append(inits, name+"()")
				}
			}
			return true
		})
	}
	// variables without an initial value
	for _, f := range files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					continue
				}
				for _, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					serial++
					name := fmt.Sprint("mcZero", serial)
					fmt.Fprintf(&f.tail, "func %s() { %s = *new(%s) }\n", name, id.Name, text(f, vs.Type))
					resets = append(resets, name+"()")
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			continue
		}
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		if len(lhs) == 0 {
			lhs = []string{"_"}
		}
		serial++
		name := fmt.Sprint("mcInit", serial)
		fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", name, strings.Join(lhs, ", "), text(f, in.Rhs))
		resets = append(resets, name+"()")
	}
	for _, f := range files {
		if len(f.edits) == 0 && f.tail.Len() == 0 {
			continue
		}
		f.insert(off(f.ast.Name.End()), `; import mcrt_ "verifmc/mcrt"`)
		fmt.Fprintf(&f.tail, "var _ = mcrt_.Active\n")
		dst := filepath.Join(*out, fmt.Sprintf("f%d_%s", len(overlay), filepath.Base(f.path)))
		check(os.WriteFile(dst, f.render(), 0o644))
		overlay[f.path] = dst
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport mcrt_ \"verifmc/mcrt\"\n\nfunc init() {\n\t%s\n\tmcrt_.OnReset(func() {\n\t\t%s\n\t})\n}\n", p.Name, strings.Join(inits, "\n\t"), strings.Join(append(resets, inits...), "\n\t\t"))
	dst := filepath.Join(*out, fmt.Sprintf("f%d_reset.go", len(overlay)))
	check(os.WriteFile(dst, []byte(b.String()), 0o644))
	overlay[filepath.Join(p.Dir, "zz_mc_reset.go")] = dst
}

func stmt(f *file, off func(token.Pos) int, s ast.Stmt) {
	switch s.(type) {
	case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		return
	}
	f.insert(off(s.Pos()), "mcrt_.Y(); ")
}
