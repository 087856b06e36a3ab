package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type nativeBuild struct {
	dir  string
	bin  string
	rbin string // built with -race, on demand
	mk   func(race bool, bin string) error
	err  error
	ch   chan struct{}
	once sync.Once
}

func startNativeBuild(ld *loaded) *nativeBuild {
	nb := &nativeBuild{ch: make(chan struct{})}
	go func() {
		defer close(nb.ch)
		nb.dir, nb.err = os.MkdirTemp("", "verifbuild")
		if nb.err != nil {
			return
		}
		var ov string
		ov, nb.err = ld.writeOverlay(nb.dir)
		if nb.err != nil {
			return
		}
		nb.bin = filepath.Join(nb.dir, "replay")
		target := modPath + "/zzverif/replay"
		if _, ok := ld.generated[filepath.Join(repoDir, "zz_zreplay.go")]; ok {
			target = modPath
		}
		nb.mk = func(race bool, bin string) error {
			args := []string{"build", "-overlay", ov, "-o", bin}
			if race {
				args = append(args, "-race")
			}
			cmd := exec.Command("go", append(args, target)...)
			cmd.Dir = repoDir
			if race {
				cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
			}
			out, err := cmd.CombinedOutput()
			if err != nil {
				return fmt.Errorf("native build: %v\n%s", err, out)
			}
			return nil
		}
		nb.err = nb.mk(false, nb.bin)
	}()
	return nb
}

func (nb *nativeBuild) wait() *nativeBuild {
	<-nb.ch
	return nb
}

func (nb *nativeBuild) clean() {
	if nb.dir != "" {
		os.RemoveAll(nb.dir)
	}
}

type symCase struct {
	Harness string     `json:"harness"`
	Inputs  []InputVal `json:"inputs"`
	Repeat  int        `json:"repeat"`
	Stress  bool       `json:"stress"`
	Kind    string     `json:"kind"`
	Finding string     `json:"finding"`
	Msg     string     `json:"msg"`
	Tier    int        `json:"tier"`
	Prop    string     `json:"property,omitempty"`
}

type symFail struct{ Kind, Finding, Msg string }

type symResult struct {
	Case     int
	Harness  string
	Observes []InputVal
	Fails    []symFail
	Asserts  int
	Skipped  bool
	Diverged string
}

// runNative replays cases in one process.
func (nb *nativeBuild) runNative(cases []symCase, timeout time.Duration) (res []symResult, crash string) {
	return nb.runNativeR(cases, timeout, false)
}

func (nb *nativeBuild) runNativeR(cases []symCase, timeout time.Duration, race bool) (res []symResult, crash string) {
	if race && nb.rbin == "" {
		b := filepath.Join(nb.dir, "replayrace")
		if err := nb.mk(true, b); err != nil {
			return nil, err.Error()
		}
		nb.rbin = b
	}
	work, err := os.MkdirTemp("", "verifrun")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(work)
	f := filepath.Join(work, "cases.json")
	b, _ := json.Marshal(cases)
	os.WriteFile(f, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	bin := nb.bin
	if race {
		bin = nb.rbin
	}
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1", "VERIF_REPLAY="+f, "VERIF_OUT=3", "TMPDIR="+work, "GOMEMLIMIT=4GiB", "GOTRACEBACK=single")
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err.Error()
	}
	cmd.ExtraFiles = []*os.File{pw}
	var se bytes.Buffer
	cmd.Stderr = &limitW{b: &se}
	if err := cmd.Start(); err != nil {
		pw.Close()
		return nil, err.Error()
	}
	pw.Close()
	dec := json.NewDecoder(pr)
	for {
		var r symResult
		if err := dec.Decode(&r); err != nil {
			break
		}
		res = append(res, r)
	}
	pr.Close()
	err = cmd.Wait()
	if ctx.Err() != nil {
		return res, "timeout"
	}
	if err != nil {
		s := se.String()
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "DATA RACE") {
				return res, l
			}
		}
		return res, "exit: " + err.Error() + " " + firstLine(s)
	}
	return res, ""
}

type limitW struct{ b *bytes.Buffer }

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type confirmedV struct {
	v    *Violation
	file string
}

type confirmRes struct {
	confirmed   []confirmedV
	knownHit    map[string]bool
	unconfirmed []string
	disagree    []string
	validated   int
	notes       []string
}

func (nb *nativeBuild) reproduces(v *Violation, tier int) (bool, string) {
	c := symCase{Harness: v.Harness, Inputs: v.Inputs, Kind: v.Kind, Finding: v.Finding, Msg: v.Msg, Tier: tier, Repeat: 1}
	tries := 1
	if v.Order {
		c.Repeat = 400
	}
	if len(v.Sched) > 0 || v.Kind == "race" || v.Kind == "deadlock" {
		c.Repeat = 3000
		c.Stress = true
		tries = 3
	}
	why := ""
	for i := 0; i < tries; i++ {
		res, crash := nb.runNativeR([]symCase{c}, 40*time.Second, v.Kind == "race" && !strings.Contains(v.Msg, "map"))
		if crash != "" {
			if v.Kind == "crash" || v.Kind == "race" && strings.Contains(crash, "DATA RACE") || v.Kind == "race" && strings.Contains(crash, "concurrent map") || v.Kind == "deadlock" && (crash == "timeout" || strings.Contains(crash, "deadlock")) ||
				v.Kind == "panic" && strings.HasPrefix(crash, "panic:") {
				return true, crash
			}
			why = "native run ended with: " + crash
			continue
		}
		for _, r := range res {
			for _, f := range r.Fails {
				if r.Diverged != "" && !c.Stress && !strings.HasPrefix(r.Diverged, "no more inputs") {
					continue
				}
				if f.Kind == v.Kind && f.Finding == v.Finding && (sameMsg(f.Msg, v.Msg) || v.Kind == "panic") {
					return true, f.Msg
				}
				if f.Kind == "assert" && v.Kind == "assert" && f.Finding == "" && v.Finding == "" && r.Diverged == "" && !r.Skipped && !c.Stress {
					// the real code fails on the counterexample, in another assertion
					v.Msg = f.Msg
					return true, f.Msg
				}
			}
			why = fmt.Sprintf("native run: fails=%v diverged=%q skipped=%v", r.Fails, r.Diverged, r.Skipped)
		}
	}
	return false, why
}

// sameMsg compares the messages of a failure up to the text of an error they quote.
func sameMsg(a, b string) bool {
	a, _, _ = strings.Cut(a, ": ")
	b, _, _ = strings.Cut(b, ": ")
	return a == b
}

func (cr *confirmRes) save(v *Violation, prop string, t int, rdir string) {
	os.MkdirAll(rdir, 0o755)
	file := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", v.Harness, len(cr.confirmed)+1))
	c := symCase{Prop: prop, Harness: v.Harness, Inputs: v.Inputs, Kind: v.Kind, Finding: v.Finding, Msg: v.Msg, Tier: t, Repeat: 1}
	if v.Order {
		c.Repeat = 400
	}
	if len(v.Sched) > 0 || v.Kind == "race" || v.Kind == "deadlock" {
		c.Repeat, c.Stress = 3000, true
	}
	b, _ := json.MarshalIndent(c, "", " ")
	os.WriteFile(file, append(b, '\n'), 0o644)
	cr.confirmed = append(cr.confirmed, confirmedV{v, file})
}

func confirm(prop, tier string, nb *nativeBuild, exs []*Explorer, known map[string]knownFinding) *confirmRes {
	defer nb.clean()
	cr := &confirmRes{knownHit: map[string]bool{}}
	if nb.err != nil {
		fatal("%v", nb.err)
	}
	t := 0
	if tier == "thorough" {
		t = 1
	}
	rdir := filepath.Join(verifDir, "replays", prop)
	os.RemoveAll(rdir)
	seen := map[string]bool{}
	for _, ex := range exs {
		for _, v := range ex.viol {
			key := ex.harness + "|" + v.Kind + "|" + v.Finding + "|" + v.Msg
			if v.Kind == "panic" {
				key = ex.harness + "|panic|" + v.Finding + "|" + v.Where
			}
			if seen[key] {
				continue
			}
			_, isKnown := known[v.Finding]
			isKnown = isKnown && v.Finding != ""
			if isKnown && cr.knownHit[v.Finding] {
				continue
			}
			ok, why := nb.reproduces(v, t)
			if !ok {
				cr.unconfirmed = append(cr.unconfirmed, fmt.Sprintf("%s [%s] %s %v: %s", v.Harness, v.Kind, v.Msg, v.Inputs, why))
				cr.notes = append(cr.notes, "candidate not reproduced natively: "+cr.unconfirmed[len(cr.unconfirmed)-1])
				continue
			}
			seen[key] = true
			if isKnown {
				cr.knownHit[v.Finding] = true
				continue
			}
			cr.save(v, prop, t, rdir)
			if len(cr.confirmed) >= 8 {
				break
			}
		}
	}
	// validate the encoding: the sampled paths, run natively, must give the outputs predicted by the engine
	var cases []symCase
	var ss []*Sample
	for _, ex := range exs {
		for _, s := range ex.samples {
			cases = append(cases, symCase{Harness: s.Harness, Inputs: s.Inputs, Tier: t, Repeat: 1})
			ss = append(ss, s)
		}
	}
	for len(cases) > 0 {
		res, crash := nb.runNative(cases, 120*time.Second)
		for _, r := range res {
			s := ss[r.Case]
			bad := ""
			switch {
			case s.Conc:
				// one native execution is one of the schedules
			case r.Diverged != "":
				bad = r.Diverged
			case r.Skipped:
				bad = "assumption failed natively"
			case len(r.Fails) > 0:
				onlyKnown := true
				for _, f := range r.Fails {
					if _, k := known[f.Finding]; f.Finding == "" || !k {
						onlyKnown = false
					}
				}
				if !onlyKnown {
					bad = fmt.Sprintf("fails natively: %v", r.Fails)
					for _, f := range r.Fails {
						v := &Violation{Harness: s.Harness, Kind: f.Kind, Finding: f.Finding, Msg: f.Msg, Inputs: s.Inputs, Order: s.Order}
						if _, k := known[f.Finding]; (f.Finding == "" || !k) && len(cr.confirmed) < 8 {
							os.MkdirAll(rdir, 0o755)
							cr.save(v, prop, t, rdir)
							break
						}
					}
				}
			case s.Order:
			case len(r.Observes) != len(s.Observes):
				bad = fmt.Sprintf("%d observations natively, %d predicted", len(r.Observes), len(s.Observes))
			default:
				for k := range r.Observes {
					if r.Observes[k].Name != s.Observes[k].Name || r.Observes[k].Val != s.Observes[k].Val {
						bad = fmt.Sprintf("%s: predicted %s, native %s", s.Observes[k].Name, s.Observes[k].Val, r.Observes[k].Val)
						break
					}
				}
			}
			if bad != "" {
				cr.disagree = append(cr.disagree, fmt.Sprintf("%s %v: %s", s.Harness, s.Inputs, bad))
			} else {
				cr.validated++
			}
		}
		if crash == "" {
			break
		}
		k := len(res)
		if k >= len(cases) {
			break
		}
		cr.disagree = append(cr.disagree, fmt.Sprintf("%s %v: native crash %s", ss[k].Harness, ss[k].Inputs, crash))
		cases, ss = cases[k+1:], ss[k+1:]
	}
	for i, d := range cr.disagree {
		if i < 5 {
			cr.notes = append(cr.notes, "encoding disagreement: "+d)
		}
	}
	return cr
}

func replayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var c symCase
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%v", err)
	}
	ld, err := loadProgram(c.Prop, nil)
	if err != nil {
		fatal("%v", err)
	}
	nb := startNativeBuild(ld).wait()
	defer nb.clean()
	if nb.err != nil {
		fatal("%v", nb.err)
	}
	res, crash := nb.runNativeR([]symCase{c}, 60*time.Second, c.Kind == "race" && !strings.Contains(c.Msg, "map"))
	out, _ := json.MarshalIndent(res, "", " ")
	fmt.Println(string(out))
	if crash != "" {
		fmt.Println("crash:", crash)
	}
	if crash != "" || len(res) > 0 && len(res[0].Fails) > 0 {
		fmt.Println("REPRODUCED", c.Msg)
		return 1
	}
	return 0
}
