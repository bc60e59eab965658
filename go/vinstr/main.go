// vinstr copies the packages of a module into a scratch module, rewriting every concurrency, time, file
// system and randomness operation to go through package vrt, so that the explorer controls it.
//
//	vinstr -src /repo -out DIR -vrt /verif/go/vrt -pkgs a,b,c [-const pkg.name=value,...] [-step pkg,...]
//
// Packages not listed in -pkgs are copied unchanged when they lie in the module. Packages of other modules
// listed in -pkgs (bpool) are copied under DIR/_dep and replaced in go.mod.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct {
		Path    string
		Version string
		Dir     string
		GoMod   string
		Main    bool
	}
	Error *struct{ Err string }
}

var replaced = map[string]map[string]bool{}

var replacement = map[string]string{
	"sync": "vsync", "sync/atomic": "vatomic", "time": "vtime", "os": "vos", "io/ioutil": "vioutil",
	"syscall": "vsyscall", "math/rand": "vmrand", "crypto/rand": "vcrand", "context": "vcontext",
	"net/rpc": "vrpc", "os/signal": "vsignal", "net": "vnet",
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vinstr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	vrtDir := flag.String("vrt", "", "")
	pkgs := flag.String("pkgs", "", "comma separated import paths to instrument")
	consts := flag.String("const", "", "pkgpath.name=value, comma separated")
	steps := flag.String("step", "", "import paths whose statements get choice points")
	races := flag.String("race", "", "import paths whose accesses to shared memory are marked")
	plain := flag.String("copy", "", "import paths to copy unchanged, with what they import")
	flag.Parse()
	if *out == "" || *vrtDir == "" || *pkgs == "" {
		fatal("usage")
	}
	for _, p := range replacement {
		loadReplaced(*vrtDir, p)
	}
	want := map[string]bool{}
	var list []string
	for _, p := range strings.Split(*pkgs, ",") {
		want[p] = true
		list = append(list, p)
	}
	for _, p := range strings.Split(*plain, ",") {
		if p != "" {
			list = append(list, p)
		}
	}
	cm := map[string]string{}
	for _, c := range strings.Split(*consts, ",") {
		if kv := strings.SplitN(c, "=", 2); len(kv) == 2 {
			cm[kv[0]] = kv[1]
		}
	}
	stepPkgs := map[string]bool{}
	for _, p := range strings.Split(*steps, ",") {
		stepPkgs[p] = true
	}

	racePkgs := map[string]bool{}
	for _, p := range strings.Split(*races, ",") {
		racePkgs[p] = true
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Error"}, list...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	all := map[string]*pkgInfo{}
	var order []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		all[p.ImportPath] = p
		order = append(order, p)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})

	modPath, modDir := "", ""
	deps := map[string]string{} // module path -> source dir
	for _, p := range order {
		if p.Module != nil && p.Module.Main {
			modPath, modDir = p.Module.Path, p.Module.Dir
		}
	}
	if modPath == "" {
		fatal("main module not found")
	}
	for _, p := range order {
		if p.Module == nil {
			continue
		}
		var dst string
		switch {
		case p.Module.Main:
			rel, _ := filepath.Rel(modDir, p.Dir)
			dst = filepath.Join(*out, rel)
		case want[p.ImportPath]:
			rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
			deps[p.Module.Path] = p.Module.Dir
			dst = filepath.Join(*out, "_dep", filepath.Base(p.Module.Path), rel)
		default:
			continue
		}
		if err := os.MkdirAll(dst, 0o755); err != nil {
			fatal("%v", err)
		}
		if !want[p.ImportPath] {
			for _, f := range p.GoFiles {
				data, err := os.ReadFile(filepath.Join(p.Dir, f))
				if err != nil {
					fatal("%v", err)
				}
				if err := os.WriteFile(filepath.Join(dst, f), data, 0o644); err != nil {
					fatal("%v", err)
				}
			}
			continue
		}
		instrument(fset, imp, p, dst, cm, stepPkgs[p.ImportPath], racePkgs[p.ImportPath])
	}
	// go.mod
	gm, err := os.ReadFile(filepath.Join(modDir, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	var gb bytes.Buffer
	gb.Write(gm)
	fmt.Fprintf(&gb, "\nrequire vrt v0.0.0\n\nreplace vrt => %s\n", *vrtDir)
	var dm []string
	for m := range deps {
		dm = append(dm, m)
	}
	sort.Strings(dm)
	for _, m := range dm {
		d := filepath.Join(*out, "_dep", filepath.Base(m))
		data, err := os.ReadFile(filepath.Join(deps[m], "go.mod"))
		if err != nil {
			data = []byte("module " + m + "\n")
		}
		data = append(data, []byte(fmt.Sprintf("\nrequire vrt v0.0.0\n\nreplace vrt => %s\n", *vrtDir))...)
		if err := os.WriteFile(filepath.Join(d, "go.mod"), data, 0o644); err != nil {
			fatal("%v", err)
		}
		fmt.Fprintf(&gb, "\nreplace %s => %s\n", m, d)
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), gb.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
	if data, err := os.ReadFile(filepath.Join(modDir, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(*out, "go.sum"), data, 0o644)
	}
}

// loadReplaced records the exported identifiers of a replacement package.
func loadReplaced(vrtDir, name string) {
	m := map[string]bool{}
	replaced[name] = m
	fs := token.NewFileSet()
	ps, err := parser.ParseDir(fs, filepath.Join(vrtDir, name), func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		return
	}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							m[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								if n.IsExported() {
									m[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
}

// importsGrpc: files that talk to the gRPC library stay as they are, and the harnesses do not reach them.
// callsGrpc: the file calls functions of gRPC, which take real connections and start real goroutines.
func callsGrpc(f *ast.File, info *types.Info) bool {
	for id, o := range info.Uses {
		if fn, ok := o.(*types.Func); ok && fn.Pkg() != nil && fn.Pkg().Path() == "google.golang.org/grpc" && id.Pos() >= f.Pos() && id.End() <= f.End() {
			if sig, ok := fn.Type().(*types.Signature); ok && sig.Recv() == nil {
				return true
			}
		}
	}
	return false
}

func instrument(fset *token.FileSet, imp types.Importer, p *pkgInfo, dst string, cm map[string]string, step, race bool) {
	base := len(sites) + 1
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type checking %s: %v", p.ImportPath, err)
	}
	var vars, inits []string
	for _, n := range tp.Scope().Names() {
		if _, ok := tp.Scope().Lookup(n).(*types.Var); ok {
			vars = append(vars, n)
		}
	}
	for i, f := range files {
		if callsGrpc(f, info) {
			data, err := os.ReadFile(filepath.Join(p.Dir, p.GoFiles[i]))
			if err == nil {
				err = os.WriteFile(filepath.Join(dst, p.GoFiles[i]), data, 0o644)
			}
			if err != nil {
				fatal("%v", err)
			}
			continue
		}
		rw := &rewriter{info: info, pkg: tp, used: map[string]bool{}, keep: map[*types.PkgName]bool{}, imports: map[*types.PkgName]bool{}, consts: cm, step: step, race: race, fset: fset}
		rw.file(f)
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		// print without positions-related comments
		f.Comments = nil
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			fatal("printing %s: %v", p.GoFiles[i], err)
		}
		name := p.GoFiles[i]
		if t := reinit(tp, buf.Bytes()); t != "" {
			n := fmt.Sprintf("zzReinit%d", i)
			inits = append(inits, n)
			fmt.Fprintf(&buf, "\nfunc %s() {\n%s}\n", n, t)
		}
		// file names with _linux etc. constraints stay as they are: the target platform is the same
		if err := os.WriteFile(filepath.Join(dst, name), buf.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if len(sites) >= base {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport \"vrt\"\n\nfunc init() {\n\tvrt.RegisterSites(%d, []string{\n", tp.Name(), base)
		for _, n := range sites[base-1:] {
			fmt.Fprintf(&b, "\t\t%q,\n", n)
		}
		fmt.Fprint(&b, "\t})\n}\n")
		if err := os.WriteFile(filepath.Join(dst, "zz_vrt_sites.go"), b.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if len(vars) > 0 {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport \"vrt\"\n\nfunc init() {\n\tvrt.RegisterVars(%q, map[string]interface{}{\n", tp.Name(), p.ImportPath)
		for _, n := range vars {
			fmt.Fprintf(&b, "\t\t%q: &%s,\n", n, n)
		}
		fmt.Fprint(&b, "\t})\n")
		for _, n := range inits {
			fmt.Fprintf(&b, "\tvrt.RegisterInit(%s)\n", n)
		}
		fmt.Fprint(&b, "}\n")
		if err := os.WriteFile(filepath.Join(dst, "zz_vrt_vars.go"), b.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

// reinit makes the statements that compute again the package variables of simple types which are initialised by
// calls: what a new process would start with, at a later time.
func reinit(tp *types.Package, src []byte) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		return ""
	}
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	var b strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Names) != len(vs.Values) {
				continue
			}
			for i, n := range vs.Names {
				v, ok := tp.Scope().Lookup(n.Name).(*types.Var)
				if !ok {
					continue
				}
				if _, ok := v.Type().Underlying().(*types.Basic); !ok {
					continue
				}
				calls := false
				ast.Inspect(vs.Values[i], func(n ast.Node) bool {
					if _, ok := n.(*ast.CallExpr); ok {
						calls = true
					}
					return true
				})
				if calls {
					fmt.Fprintf(&b, "\t%s = %s\n", n.Name, text(vs.Values[i]))
				}
			}
		}
	}
	return b.String()
}
