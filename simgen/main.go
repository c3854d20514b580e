// Command simgen rewrites the agent (and the two libraries it links) so that it runs inside the
// simulation runtime: goroutines, channels, locks, clocks, files, sockets, randomness and map
// iteration go through verifsim/simrt, and every statement is a point where the scheduler may
// switch. It judges nothing itself; it only puts the seams in.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	modAgent = "github.com/scouter-contrib/scouter-agent-golang"
	modGods  = "github.com/emirpasic/gods"
	modProps = "github.com/magiconair/properties"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Imports    []string
	DepOnly    bool
	Error      *struct{ Err string }
}

var (
	fRepo   = flag.String("repo", "/repo", "agent source tree")
	fSim    = flag.String("sim", "", "verifsim module directory")
	fOut    = flag.String("out", "", "scratch directory to write")
	fGods   = flag.String("gods", "", "gods module directory")
	fProps  = flag.String("props", "", "properties module directory")
	shadows = map[string]string{ // std import path -> shadow directory name
		"sync": "sync", "time": "time", "context": "context", "log": "log", "runtime": "runtime",
		"runtime/debug": "debug", "runtime/pprof": "pprof", "math/rand": "rand", "crypto/rand": "crand",
		"os": "os", "io/ioutil": "ioutil", "path/filepath": "filepath", "net": "net",
	}
	stdRewritten = map[string]string{"container/list": "verifgen/clist", "container/ring": "verifgen/cring", "container/heap": "verifgen/cheap"}
	exports      = map[string]map[string]bool{} // std path -> names the shadow provides
	sites        []string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func copyGo(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			b := fi.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		q := filepath.Join(to, rel)
		if err := os.MkdirAll(filepath.Dir(q), 0755); err != nil {
			return err
		}
		return os.WriteFile(q, data, 0644)
	}))
}

func main() {
	flag.Parse()
	for std, dir := range shadows {
		exports[std] = exportedNames(filepath.Join(*fSim, "shadow", dir))
	}
	orig := filepath.Join(*fOut, "orig")
	gen := filepath.Join(*fOut, "gen")
	// a previous build may have left files the tree no longer has
	must(os.RemoveAll(orig))
	must(os.RemoveAll(gen))
	must(os.MkdirAll(orig, 0755))
	copyGo(filepath.Join(*fRepo, "scouterx"), filepath.Join(orig, "agent", "scouterx"))
	copyGo(*fGods, filepath.Join(orig, "gods"))
	copyGo(*fProps, filepath.Join(orig, "properties"))
	w := func(p, s string) {
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, []byte(s), 0644))
	}
	w(filepath.Join(orig, "gods", "go.mod"), "module "+modGods+"\n\ngo 1.15\n")
	w(filepath.Join(orig, "properties", "go.mod"), "module "+modProps+"\n\ngo 1.15\n")
	w(filepath.Join(orig, "agent", "go.mod"), "module "+modAgent+"\n\ngo 1.15\n\nrequire (\n"+modGods+" v0.0.0\n"+modProps+" v0.0.0\n)\nreplace "+modGods+" => ../gods\nreplace "+modProps+" => ../properties\n")

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Standard,Imports,DepOnly,Error", "./scouterx/...", "container/list", "container/ring", "container/heap")
	cmd.Dir = filepath.Join(orig, "agent")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs = append(pkgs, &p)
	}
	byPath := map[string]*listPkg{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}
	rewritten := func(path string) bool {
		_, std := stdRewritten[path]
		return std || strings.HasPrefix(path, modAgent) || strings.HasPrefix(path, modGods) || strings.HasPrefix(path, modProps)
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	done := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p := done[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	sites = append(sites, "-")
	type bootPkg struct{ path, alias string }
	var boots []bootPkg
	for _, p := range pkgs { // dependency order
		if !rewritten(p.ImportPath) {
			continue
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		var files []*ast.File
		var names []string
		sort.Strings(p.GoFiles)
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			must(err)
			files = append(files, af)
			names = append(names, f)
		}
		if len(files) == 0 {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, FakeImportC: true, GoVersion: "go1.21"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		done[p.ImportPath] = tp
		dir, newPath := "", p.ImportPath
		switch {
		case strings.HasPrefix(p.ImportPath, modAgent):
			dir = filepath.Join(gen, "agent", strings.TrimPrefix(p.ImportPath, modAgent))
		case strings.HasPrefix(p.ImportPath, modGods):
			dir = filepath.Join(gen, "gods", strings.TrimPrefix(p.ImportPath, modGods))
		case strings.HasPrefix(p.ImportPath, modProps):
			dir = filepath.Join(gen, "properties", strings.TrimPrefix(p.ImportPath, modProps))
		default:
			newPath = stdRewritten[p.ImportPath]
			dir = filepath.Join(gen, "vg", strings.TrimPrefix(newPath, "verifgen/"))
		}
		pr := &pkgRW{info: info, pkg: tp, fset: fset, path: p.ImportPath, noY: strings.HasPrefix(p.ImportPath, modProps)}
		pr.rewrite(files, names, dir)
		boots = append(boots, bootPkg{newPath, fmt.Sprintf("p%d", len(boots))})
	}
	// boot package
	var b bytes.Buffer
	b.WriteString("// Package boot runs the package initialisers of a fresh agent process.\npackage boot\n\nimport (\n")
	for _, p := range boots {
		fmt.Fprintf(&b, "\t%s %q\n", p.alias, p.path)
	}
	b.WriteString("\t\"verifsim/simrt\"\n)\n\n// Boot initialises every package of the agent in dependency order. With full unset, the\n// root package (which starts everything) is left out, as in a program that imports only strace.\nfunc Boot(full bool) {\n")
	for _, p := range boots {
		if p.path == modAgent+"/scouterx" {
			fmt.Fprintf(&b, "\tif full {\n\t\t%s.SimInit()\n\t} else {\n\t\t%s.SimZero()\n\t}\n", p.alias, p.alias)
			continue
		}
		fmt.Fprintf(&b, "\t%s.SimInit()\n", p.alias)
	}
	b.WriteString("}\n\nfunc init() {\n\tsimrt.SiteTable = Sites\n\tsimrt.NumSites = len(Sites)\n}\n")
	w(filepath.Join(gen, "vg", "boot", "boot.go"), b.String())
	b.Reset()
	b.WriteString("package boot\n\n// Sites maps scheduling points to the agent's source lines.\nvar Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	w(filepath.Join(gen, "vg", "boot", "sites.go"), b.String())
	// modules
	req := func(self string) string {
		s := ""
		for _, m := range []string{modAgent, modGods, modProps, "verifgen", "verifsim"} {
			if m != self {
				s += "require " + m + " v0.0.0\n"
			}
		}
		return s
	}
	rep := "replace " + modAgent + " => " + filepath.Join(gen, "agent") + "\nreplace " + modGods + " => " + filepath.Join(gen, "gods") + "\nreplace " + modProps + " => " + filepath.Join(gen, "properties") + "\nreplace verifgen => " + filepath.Join(gen, "vg") + "\n"
	for _, m := range [][2]string{{"agent", modAgent}, {"gods", modGods}, {"properties", modProps}, {"vg", "verifgen"}} {
		w(filepath.Join(gen, m[0], "go.mod"), "module "+m[1]+"\n\ngo 1.21\n\n"+req(m[1]))
	}
	w(filepath.Join(gen, "sim.mod"), "module verifsim\n\ngo 1.24\n\n"+req("verifsim")+rep)
	w(filepath.Join(gen, "sim.sum"), "")
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func exportedNames(dir string) map[string]bool {
	fset := token.NewFileSet()
	ps, err := parser.ParseDir(fset, dir, nil, 0)
	must(err)
	out := map[string]bool{}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						out[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							if s.Name.IsExported() {
								out[s.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range s.Names {
								if n.IsExported() {
									out[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func formatFile(fset *token.FileSet, f *ast.File) []byte {
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		die("printing: %v", err)
	}
	return b.Bytes()
}
