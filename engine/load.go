package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// overlay maps paths in the repository to harness files under /verif/harness.
func overlay(verif, repo, prop string) (map[string]string, error) {
	root := filepath.Join(verif, "harness")
	out := map[string]string{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		b := filepath.Base(p)
		if !strings.HasPrefix(rel, "zzverif/") {
			// in-package file: only those of this property and shared ones
			if !strings.Contains(b, strings.ToLower(prop)) && !strings.Contains(b, "common") {
				return nil
			}
		}
		out[filepath.Join(repo, rel)] = p
		return nil
	})
	return out, err
}

// rewrite adds to over copies of the repository's files in which imports are
// replaced by models; nothing else of the files is changed.
func rewrite(repo string, rws []Rewrite, over map[string]string) (func(), error) {
	if len(rws) == 0 {
		return func() {}, nil
	}
	dir, err := os.MkdirTemp("", "verifrw")
	if err != nil {
		return func() {}, err
	}
	undo := func() { os.RemoveAll(dir) }
	n := 0
	for _, rw := range rws {
		err := filepath.Walk(filepath.Join(repo, rw.Dir), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return err
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.ImportsOnly)
			if err != nil {
				return nil // reported when the package is loaded
			}
			var nb []byte
			at := 0
			for _, im := range f.Imports {
				to, ok := rw.Imports[strings.Trim(im.Path.Value, "\"`")]
				if !ok {
					continue
				}
				nb = append(nb, b[at:int(im.Path.Pos())-1]...)
				nb = append(nb, fmt.Sprintf("%q", module+"/"+to)...)
				at = int(im.Path.End()) - 1
			}
			if at == 0 {
				return nil
			}
			nb = append(nb, b[at:]...)
			t := filepath.Join(dir, fmt.Sprintf("r%d_%s", n, filepath.Base(p)))
			n++
			over[p] = t
			return os.WriteFile(t, nb, 0o644)
		})
		if err != nil {
			return undo, err
		}
	}
	return undo, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "GONOSUMDB=*", "CGO_ENABLED=0")
}

// loaded is a program with its harness packages.
type loaded struct {
	p       *Program
	pkgs    map[string]*ssa.Package // by path
	dropped []string
	over    map[string]string
}

func load(repo, module string, over map[string]string, pkgPaths []string, modfile string) (*loaded, error) {
	res := &loaded{pkgs: map[string]*ssa.Package{}, over: over}
	for attempt := 0; ; attempt++ {
		ov := map[string][]byte{}
		for dst, src := range over {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			ov[dst] = b
		}
		fset := token.NewFileSet()
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:  repo, Fset: fset, Overlay: ov, Env: goEnv(),
			ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
				return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			},
		}
		if modfile != "" {
			cfg.BuildFlags = []string{"-modfile=" + modfile}
		}
		pkgs, err := packages.Load(cfg, pkgPaths...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var msgs []string
		var repoBroken bool
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				msgs = append(msgs, e.Error())
				f := strings.SplitN(e.Pos, ":", 2)[0]
				if src, ok := over[f]; ok && strings.Contains(src, "/verifrw") {
					repoBroken = true // the models lack something that the current tree uses
				} else if ok {
					bad[f] = true
				} else if strings.Contains(p.PkgPath, module) {
					repoBroken = true
				}
			}
		})
		if len(msgs) > 0 && attempt < 3 {
			if repoBroken && len(bad) == 0 {
				return nil, fmt.Errorf("load: %s", strings.Join(msgs, "; "))
			}
			n := 0
			for f := range bad {
				res.dropped = append(res.dropped, fmt.Sprintf("%s does not compile against the current tree: %s", f, msgs[0]))
				delete(over, f)
				n++
			}
			// harness packages with no files left cannot be loaded
			var keep []string
			for _, pp := range pkgPaths {
				dir := filepath.Join(repo, strings.TrimPrefix(strings.TrimPrefix(pp, module), "/"))
				has := false
				for f := range over {
					if filepath.Dir(f) == dir {
						has = true
					}
				}
				if fs, _ := filepath.Glob(dir + "/*.go"); len(fs) > 0 {
					has = true
				}
				if has {
					keep = append(keep, pp)
				}
			}
			pkgPaths = keep
			if n > 0 && len(pkgPaths) > 0 {
				continue
			}
			if repoBroken || n == 0 {
				return nil, fmt.Errorf("load: %s", strings.Join(msgs, "; "))
			}
		}
		if len(msgs) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(msgs, "; "))
		}
		prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		p := &Program{prog: prog, fset: fset, module: module, globals: map[*ssa.Global]*globalInfo{}, sizes: types.SizesFor("gc", "amd64")}
		for _, x := range prog.AllPackages() {
			if x.Pkg.Path() == "errors" {
				if t := x.Type("errorString"); t != nil {
					p.errString = canon(types.NewPointer(t.Type()))
				}
			}
		}
		for i, x := range sp {
			if x != nil {
				res.pkgs[pkgs[i].PkgPath] = x
			}
		}
		res.p = p
		return res, nil
	}
}

// makeModfile returns a copy of the repository's go.mod in which the modules of
// the packages in stubs are replaced by copies, where those packages are the
// models in harness/stubs.
func makeModfile(verif, repo string, stubs []string) (string, func(), error) {
	if len(stubs) == 0 {
		return "", func() {}, nil
	}
	dir, err := os.MkdirTemp("", "verifmod")
	if err != nil {
		return "", func() {}, err
	}
	done := func() { os.RemoveAll(dir) }
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", done, err
	}
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
	}
	for i, pkg := range stubs {
		cmd := exec.Command("go", "list", "-f", "{{.Dir}}|{{.Module.Dir}}|{{.Module.Path}}", pkg)
		cmd.Dir = repo
		cmd.Env = goEnv()
		out, err := cmd.Output()
		if err != nil {
			return "", done, fmt.Errorf("go list %s: %v", pkg, err)
		}
		f := strings.Split(strings.TrimSpace(string(out)), "|")
		to := filepath.Join(dir, fmt.Sprintf("m%d", i))
		err = filepath.Walk(f[1], func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(f[1], p)
			dst := filepath.Join(to, rel)
			if fi.IsDir() {
				return os.MkdirAll(dst, 0o755)
			}
			if strings.HasSuffix(p, ".go") && filepath.Dir(p) == f[0] || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(dst, b, 0o644)
		})
		if err != nil {
			return "", done, err
		}
		rel, _ := filepath.Rel(f[1], f[0])
		models, _ := filepath.Glob(filepath.Join(verif, "harness", "stubs", filepath.Base(pkg), "*.go.txt"))
		for _, m := range models {
			b, err := os.ReadFile(m)
			if err != nil {
				return "", done, err
			}
			if err := os.WriteFile(filepath.Join(to, rel, strings.TrimSuffix(filepath.Base(m), ".txt")), b, 0o644); err != nil {
				return "", done, err
			}
		}
		mod = append(mod, []byte(fmt.Sprintf("\nreplace %s => %s\n", f[2], to))...)
	}
	mf := filepath.Join(dir, "go.mod")
	return mf, done, os.WriteFile(mf, mod, 0o644)
}

// writeOverlayJSON writes a go build overlay with the harness files, extra
// files and clock-rewritten copies of the repository's files.
func writeOverlayJSON(dir, repo, module string, over map[string]string, extra map[string][]byte) (string, error) {
	rep := map[string]string{}
	for d, s := range over {
		rep[d] = s
	}
	n := 0
	put := func(dst string, b []byte) error {
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(dst)))
		n++
		rep[dst] = f
		return os.WriteFile(f, b, 0o644)
	}
	for d, b := range extra {
		if err := put(d, b); err != nil {
			return "", err
		}
	}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != repo {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Contains(b, []byte("time.Now(")) || bytes.Contains(b, []byte("//go:build ignore")) {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.PackageClauseOnly)
		if err != nil {
			return nil
		}
		end := int(f.Name.End()) - 1
		var nb []byte
		nb = append(nb, b[:end]...)
		nb = append(nb, []byte("\nimport zznd \""+module+"/zzverif/nd\"\n")...)
		nb = append(nb, bytes.ReplaceAll(b[end:], []byte("time.Now("), []byte("zznd.Now("))...)
		nb = append(nb, []byte("\nvar _ = time.Now\n")...)
		return put(p, nb)
	})
	if err != nil {
		return "", err
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, js, 0o644)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
