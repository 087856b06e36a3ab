package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type harness struct {
	name     string
	prop     string
	pkg      string // directory below harness/
	file     string
	doc      string
	reach    []string
	thorough bool
	fn       *ssa.Function
}

type loaded struct {
	p         *Program
	harnesses []*harness
	overlay   map[string]string // path below the repository -> real file
	dropped   []string
	tmp       string
	generated map[string][]byte
	stage     *stage
}

var harnessPkgs = []string{"transform", "jsonschema", "generate", "main", "gen"}

var verifFn = regexp.MustCompile(`^Verif_([A-Z][0-9]{2,3})(T?)_`)

func pkgDir(repo, h string) string {
	if h == "main" {
		return repo
	}
	if h == "gen" {
		return filepath.Join(repo, "zzverif/gencheck")
	}
	return filepath.Join(repo, h)
}

func pkgPath(h string) string {
	if h == "main" {
		return modPath
	}
	if h == "gen" {
		return modPath + "/zzverif/gencheck"
	}
	return modPath + "/" + h
}

// scanHarness reads the harness functions of one file.
func scanHarness(file, pkg string) ([]*harness, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []*harness
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil {
			continue
		}
		m := verifFn.FindStringSubmatch(fd.Name.Name)
		if m == nil {
			continue
		}
		h := &harness{name: fd.Name.Name, prop: m[1], pkg: pkg, file: file, doc: strings.TrimSpace(fd.Doc.Text()), thorough: m[2] == "T"}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Reach" && len(c.Args) == 1 {
					if l, ok := c.Args[0].(*ast.BasicLit); ok {
						t, _ := strconv.Unquote(l.Value)
						h.reach = append(h.reach, t)
					}
				}
			}
			return true
		})
		out = append(out, h)
	}
	return out, nil
}

// loadProgram builds the SSA of the repository with the harnesses of the property overlaid.
func loadProgram(prop string, drop map[string]bool) (*loaded, error) {
	ld := &loaded{overlay: map[string]string{}, generated: map[string][]byte{}}
	if drop == nil {
		drop = map[string]bool{}
	}
	want := map[string]bool{}
	for _, hp := range harnessPkgs {
		dir := filepath.Join(verifDir, "harness", hp)
		files, _ := filepath.Glob(filepath.Join(dir, "zz_*.go"))
		sort.Strings(files)
		var names []string
		uses := false
		type ff struct {
			file string
			hs   []*harness
		}
		var all []ff
		for _, f := range files {
			hs, err := scanHarness(f, hp)
			if err != nil {
				return nil, err
			}
			all = append(all, ff{f, hs})
			for _, h := range hs {
				if h.prop == prop {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		want[hp] = true
		any := false
		for _, a := range all {
			rel := false
			for _, h := range a.hs {
				if h.prop == prop {
					rel = true
				}
			}
			// files with harnesses of other properties are left out
			if len(a.hs) > 0 && !rel {
				continue
			}
			if drop[a.file] {
				ld.dropped = append(ld.dropped, a.file)
				continue
			}
			ld.overlay[filepath.Join(pkgDir(repoDir, hp), filepath.Base(a.file))] = a.file
			any = true
			for _, h := range a.hs {
				names = append(names, h.name)
				ld.harnesses = append(ld.harnesses, h)
			}
		}
		_ = any
		pkgName := hp
		if hp == "main" {
			if err := ld.hookExit(); err != nil {
				return nil, err
			}
		}
		if hp == "gen" {
			pkgName = "gencheck"
			st, err := runStage(prop)
			if err != nil {
				return nil, err
			}
			st.add(ld)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport \"%s\"\n\nfunc init() {\n", pkgName, symPath)
		for _, n := range names {
			fmt.Fprintf(&sb, "\tsym.Register(%q, %s)\n", n, n)
		}
		sb.WriteString("\tsym.Register(\"\", func() {})\n}\n")
		ld.generated[filepath.Join(pkgDir(repoDir, hp), "zz_registry.go")] = []byte(sb.String())
	}
	if len(want) == 0 {
		return nil, fmt.Errorf("no harness for property %q", prop)
	}
	ld.overlay[filepath.Join(repoDir, "zzverif/sym/sym.go")] = filepath.Join(verifDir, "harness/sym/sym.go")
	var sb strings.Builder
	replayPkg := "package main\n\nimport (\n\t\"os\"\n\n"
	sb.WriteString(replayPkg)
	for _, hp := range harnessPkgs {
		if want[hp] && hp != "main" {
			fmt.Fprintf(&sb, "\t_ %q\n", pkgPath(hp))
		}
	}
	fmt.Fprintf(&sb, "\t%q\n)\n\nfunc init() {\n\tif f := os.Getenv(\"VERIF_REPLAY\"); f != \"\" {\n\t\tsym.ReplayMain(f)\n\t\tos.Exit(0)\n\t}\n}\n", symPath)
	if want["main"] {
		ld.generated[filepath.Join(repoDir, "zz_zreplay.go")] = []byte(sb.String())
	} else {
		sb.WriteString("\nfunc main() {}\n")
		ld.generated[filepath.Join(repoDir, "zzverif/replay/main.go")] = []byte(sb.String())
	}

	ov := map[string][]byte{}
	for k, f := range ld.overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	for k, b := range ld.generated {
		ov[k] = b
	}
	var pats []string
	for _, hp := range harnessPkgs {
		if want[hp] {
			pats = append(pats, pkgPath(hp))
		}
	}
	extra := []string{"errors", "io/fs", "strconv", "runtime", "syscall", "go/parser", "go/token", "internal/godebug", "encoding/json"}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		Fset:    token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, append(pats, extra...)...)
	if err != nil {
		return nil, err
	}
	// harness files which do not type-check on this tree are left out
	bad := map[string]bool{}
	var other []string
	failed := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if ld.stage != nil && ld.stage.typeError(e.Pos, e.Error()) {
				failed = true
				continue
			}
			pos := strings.SplitN(e.Pos, ":", 2)[0]
			base := filepath.Base(pos)
			found := false
			for k, f := range ld.overlay {
				if k == pos || filepath.Base(k) == base && strings.HasPrefix(base, "zz_") {
					bad[f] = true
					found = true
				}
			}
			if !found && strings.HasPrefix(p.PkgPath, modPath) {
				other = append(other, e.Error())
			}
		}
	})
	if failed {
		return loadProgram(prop, drop)
	}
	if len(bad) > 0 {
		grew := false
		for f := range bad {
			if !drop[f] {
				drop[f] = true
				grew = true
			}
		}
		if verbose {
			for _, p := range pkgs {
				for _, e := range p.Errors {
					fmt.Println("type error:", e)
				}
			}
		}
		if grew {
			return loadProgram(prop, drop)
		}
	}
	if len(other) > 0 {
		return nil, fmt.Errorf("the repository does not load: %s", strings.Join(other, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ld.p = &Program{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int{}, module: modPath,
		funcs2: map[*ssa.Function]*Func{}, byName: map[string]*Func{}}
	for _, p := range prog.AllPackages() {
		ld.p.pkgs[p.Pkg.Path()] = p
	}
	for _, h := range ld.harnesses {
		sp := ld.p.pkgs[pkgPath(h.pkg)]
		if sp == nil {
			return nil, fmt.Errorf("package %s not loaded", h.pkg)
		}
		sp.Build()
		h.fn = sp.Func(h.name)
		if h.fn == nil {
			return nil, fmt.Errorf("harness %s not found", h.name)
		}
	}
	return ld, nil
}

// writeOverlay lays the overlay out for the go command.
func (ld *loaded) writeOverlay(dir string) (string, error) {
	rep := map[string]string{}
	for k, f := range ld.overlay {
		rep[k] = f
	}
	i := 0
	for k, b := range ld.generated {
		f := filepath.Join(dir, fmt.Sprintf("gen%d_%s", i, filepath.Base(k)))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		rep[k] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

// hookExit replaces the calls of os.Exit in the command by calls of zzExit, a function of the harness.
func (ld *loaded) hookExit() error {
	es, err := os.ReadDir(repoDir)
	if err != nil {
		return err
	}
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		name := filepath.Join(repoDir, e.Name())
		src, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			continue // the compiler reports it
		}
		osName := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"os"` {
				osName = "os"
				if im.Name != nil {
					osName = im.Name.Name
				}
			}
		}
		if osName == "" {
			continue
		}
		var at []int
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Exit" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == osName {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		var out []byte
		last := 0
		for _, o := range at {
			out = append(append(out, src[last:o]...), "zzExit"...)
			last = o + len(osName) + len(".Exit")
		}
		out = append(append(out, src[last:]...), "\n\nvar _ = "+osName+".Exit\n"...)
		ld.generated[name] = out
	}
	return nil
}
