package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// stage is the output of the program harness/gen/stage, which runs the generator of the current tree natively: packages of
// generated code, a file for each that fills values of the generated struct, and the cases without proper code.
type stage struct {
	files    map[string][]byte // path below the output directory -> contents
	failures map[string]string // case -> why there is no code that compiles
	known    map[string]string // case -> finding
}

var stages = map[string]*stage{}

func runStage(prop string) (*stage, error) {
	if st := stages[prop]; st != nil {
		return st, nil
	}
	tmp, err := os.MkdirTemp("", "verifstage")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{
		filepath.Join(repoDir, "zzverif/stage/main.go"): filepath.Join(verifDir, "harness/gen/stage/main.go"),
	}})
	ov := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return nil, err
	}
	out := filepath.Join(tmp, "out")
	if err := os.Mkdir(out, 0o755); err != nil {
		return nil, err
	}
	bin := filepath.Join(tmp, "stage")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, modPath+"/zzverif/stage")
	cmd.Dir = repoDir
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("the stage does not build: %v\n%s", err, o)
	}
	cmd = exec.Command(bin, "-out", out, "-prop", prop, "-import", modPath+"/zzverif/gen")
	cmd.Dir = tmp
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("the stage fails: %v\n%s", err, o)
	}
	st := &stage{files: map[string][]byte{}, failures: map[string]string{}, known: map[string]string{}}
	err = filepath.Walk(out, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		rel, _ := filepath.Rel(out, p)
		st.files[rel], err = os.ReadFile(p)
		return err
	})
	if err != nil {
		return nil, err
	}
	var res struct{ Errors, Known map[string]string }
	rb, err := os.ReadFile(filepath.Join(out, "result.json"))
	if err != nil {
		return nil, err
	}
	if err := json.Unmarshal(rb, &res); err != nil {
		return nil, err
	}
	for k, v := range res.Errors {
		st.failures[k] = strings.ReplaceAll(v, tmp, "")
	}
	for k, v := range res.Known {
		st.known[k] = v
	}
	stages[prop] = st
	return st, nil
}

// caseOf is the case that a generated file belongs to.
func caseOf(rel string) string {
	if d := strings.SplitN(filepath.ToSlash(rel), "/", 2); len(d) == 2 {
		return d[0]
	}
	return strings.TrimSuffix(strings.TrimPrefix(rel, "zz_case_"), ".go")
}

// add adds the generated code of the proper cases to the program.
func (st *stage) add(ld *loaded) {
	ld.stage = st
	for rel, b := range st.files {
		if _, bad := st.failures[caseOf(rel)]; bad {
			continue
		}
		if strings.Contains(filepath.ToSlash(rel), "/") {
			ld.generated[filepath.Join(repoDir, "zzverif/gen", rel)] = b
		} else {
			ld.generated[filepath.Join(repoDir, "zzverif/gencheck", rel)] = b
		}
	}
	var sb strings.Builder
	sb.WriteString("package gencheck\n")
	for _, m := range []struct {
		name string
		m    map[string]string
	}{{"failures", st.failures}, {"knowns", st.known}} {
		fmt.Fprintf(&sb, "\nvar %s = map[string]string{\n", m.name)
		var ks []string
		for k := range m.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, "\t%q: %q,\n", k, m.m[k])
		}
		sb.WriteString("}\n")
	}
	ld.generated[filepath.Join(repoDir, "zzverif/gencheck/zz_failures.go")] = []byte(sb.String())
}

// typeError records a type error in generated code. It reports whether the position is in a case.
func (st *stage) typeError(pos, msg string) bool {
	file := strings.SplitN(pos, ":", 2)[0]
	name := ""
	if rel, err := filepath.Rel(filepath.Join(repoDir, "zzverif/gen"), file); err == nil && !strings.HasPrefix(rel, "..") {
		name = caseOf(rel)
	} else if b := filepath.Base(file); strings.HasPrefix(b, "zz_case_") {
		name = caseOf(b)
	}
	if name == "" {
		return false
	}
	if _, ok := st.failures[name]; !ok {
		st.failures[name] = "the generated code does not compile: " + msg
	}
	return true
}
