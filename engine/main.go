package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var verbose bool
var repoDir = "/repo"
var verifDir = "/verif"

type knownFinding struct {
	Property string `json:"property"`
	Finding  string `json:"finding"`
	Status   string `json:"status"` // known or fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown(prop string) map[string]knownFinding {
	out := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return out
	}
	var ks []knownFinding
	if err := json.Unmarshal(b, &ks); err != nil {
		fatal("known_findings.json: %v", err)
	}
	for _, k := range ks {
		if k.Property == prop && k.Status == "known" {
			out[k.Finding] = k
		}
	}
	return out
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verif: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	os.Setenv("GOFLAGS", "-mod=readonly -buildvcs=false") // go.mod of the repository stays as it is
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "regular expression of harness names")
	secs := flag.Float64("time", 0, "time limit in seconds for the exploration")
	nw := flag.Int("j", 0, "workers")
	replay := flag.String("replay", "", "replay a recorded violation")
	prof := flag.String("cpuprofile", "", "")
	noEvidence := flag.Bool("n", false, "do not write evidence")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.Parse()
	debug.SetGCPercent(200)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replay != "" {
		os.Exit(replayFile(*replay))
	}
	if *nw == 0 {
		*nw = runtime.NumCPU()
		if *nw > 8 {
			*nw = 8
		}
	}
	code := check(*prop, *tier, *only, *secs, *nw, !*noEvidence)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func check(prop, tier, only string, secs float64, nw int, evidence bool) int {
	start := time.Now()
	known := loadKnown(prop)
	ld, err := loadProgram(prop, nil)
	if err != nil {
		fatal("%v", err)
	}
	loadS := time.Since(start).Seconds()
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	var hs []*harness
	for _, h := range ld.harnesses {
		if h.prop == prop && (re == nil || re.MatchString(h.name)) {
			if h.thorough && tier != "thorough" && re == nil {
				continue
			}
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fatal("no harness of %s could be loaded: %v", prop, ld.dropped)
	}
	if secs == 0 {
		secs = 100
		if tier == "thorough" {
			secs = 700
		}
	}
	build := startNativeBuild(ld)
	workers := make([]*Interp, nw)
	for i := range workers {
		tc := newTermCtx()
		to := 4000
		if tier == "thorough" {
			to = 20000
		}
		workers[i] = newInterp(ld.p, i, newSolver(tc, "z3-new", []string{"-in"}, to), tc)
		workers[i].sol.every = 50
		if tier == "thorough" {
			workers[i].sol.every = 10
		}
	}
	defer func() {
		for _, w := range workers {
			w.sol.stop()
		}
	}()
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var exs []*Explorer
	for i, h := range hs {
		left := len(hs) - i
		ex := newExplorer(h.name, ld.p.fnOf(h.fn))
		ex.prop = prop
		ex.known = map[string]bool{}
		for k := range known {
			ex.known[k] = true
		}
		if tier == "thorough" {
			ex.tier = 1
			ex.budget *= 5
		}
		rem := time.Until(deadline)
		// a harness may use up to half of what is left, and never less than its fair share
		share := rem / time.Duration(left)
		if left > 1 && share < rem/2 {
			share = rem / 2
		}
		ex.deadline = time.Now().Add(share)
		t0 := time.Now()
		ex.run(workers, nw)
		ex.wall = time.Since(t0).Seconds()
		exs = append(exs, ex)
		fmt.Printf("%s: %d paths, %d assertions, %d queries, %d instructions, %.1fs", h.name, ex.paths, ex.asserts, ex.queries, ex.steps, ex.wall)
		if ex.timedOut {
			fmt.Printf(" TIME LIMIT (%d states left)", ex.left)
		}
		fmt.Println()
		for _, k := range sortedKeys(ex.incomplete) {
			fmt.Printf("  reduced: %s (x%d)\n", k, ex.incomplete[k])
		}
		for _, t := range h.reach {
			if ex.reached[t] == 0 {
				fmt.Printf("  reachability witness %q not reached\n", t)
			}
		}
		if verbose {
			for _, k := range sortedKeys(ex.forkAt) {
				if ex.forkAt[k] > 50 {
					fmt.Printf("  fork x%d %s\n", ex.forkAt[k], k)
				}
			}
			for _, v := range ex.viol {
				fmt.Printf("  candidate [%s] %s: %s\n    %v\n    at %s\n", v.Kind, v.Finding, v.Msg, v.Inputs, v.Where)
			}
			for i, s := range ex.samples {
				if i < 3 {
					fmt.Printf("  sample %v -> %v\n", s.Inputs, s.Observes)
				}
			}
		}
	}
	exploreS := time.Since(start).Seconds() - loadS
	rep := build.wait()
	res := confirm(prop, tier, rep, exs, known)
	sol := solverStats(workers)
	if evidence {
		writeEvidence(prop, tier, ld, hs, exs, res, sol, known, start, loadS, exploreS)
	}
	for _, n := range res.notes {
		fmt.Println("note:", n)
	}
	for _, k := range sortedKeys(res.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k, known[k].What)
	}
	for _, v := range res.confirmed {
		fmt.Printf("  %s: [%s] %s\n    inputs: %v\n", v.v.Harness, v.v.Kind, v.v.Msg, v.v.Inputs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.file)
	}
	if verbose {
		fmt.Printf("load %.1fs explore %.1fs total %.1fs; queries %d (sat %d unsat %d unknown %d, cached %d) solver %.1fs max %.2fs\n", loadS, exploreS, time.Since(start).Seconds(),
			sol.Queries, sol.Sat, sol.Unsat, sol.Unknown, sol.CacheHit, sol.Time.Seconds(), sol.MaxTime.Seconds())
		fmt.Printf("cvc5: %d queries, %d agree, %d answered only by it, %d disagree, %.1fs\n", sol.Second, sol.Agreed, sol.Resolved, len(sol.Differ), sol.SecondT.Seconds())
		if len(sol.Errors) > 0 {
			fmt.Println("solver errors:", sol.Errors[0])
		}
	}
	if len(res.confirmed) > 0 {
		return 1
	}
	return 0
}

func solverStats(ws []*Interp) *Solver {
	s := &Solver{}
	for _, w := range ws {
		o := w.sol
		s.Queries += o.Queries
		s.Sat += o.Sat
		s.Unsat += o.Unsat
		s.Unknown += o.Unknown
		s.CacheHit += o.CacheHit
		s.Time += o.Time
		if o.MaxTime > s.MaxTime {
			s.MaxTime = o.MaxTime
		}
		s.Errors = append(s.Errors, o.Errors...)
		s.Second += o.Second
		s.Agreed += o.Agreed
		s.Resolved += o.Resolved
		s.SecondT += o.SecondT
		s.Differ = append(s.Differ, o.Differ...)
	}
	return s
}

func writeEvidence(prop, tier string, ld *loaded, hs []*harness, exs []*Explorer, res *confirmRes, sol *Solver, known map[string]knownFinding, start time.Time, loadS, exploreS float64) {
	var states, trans, asserts, infeasible int64
	incomplete := map[string]int64{}
	var samples []any
	var per []any
	exhaustive := true
	var unreached []string
	for i, ex := range exs {
		states += ex.forks + ex.paths
		trans += ex.steps
		asserts += ex.asserts
		infeasible += ex.infeasible
		for k, n := range ex.incomplete {
			incomplete[ex.harness+": "+k] += n
		}
		if ex.timedOut {
			incomplete[ex.harness+": time limit, unexplored states"] += int64(ex.left)
		}
		if ex.timedOut || len(ex.incomplete) > 0 {
			exhaustive = false
		}
		for k, s := range ex.samples {
			if k < 3 {
				samples = append(samples, s)
			}
		}
		for _, t := range hs[i].reach {
			if ex.reached[t] == 0 {
				unreached = append(unreached, ex.harness+":"+t)
			}
		}
		per = append(per, map[string]any{"harness": ex.harness, "bounds": hs[i].doc, "symbolic_inputs": sortedKeys(ex.inputNames), "paths": ex.paths, "infeasible": ex.infeasible, "forks": ex.forks,
			"assertions_decided": ex.asserts, "queries": ex.queries, "instructions": ex.steps, "wall_s": ex.wall, "complete_within_bounds": !ex.timedOut && len(ex.incomplete) == 0, "reached": ex.reached})
	}
	var fns []string
	libs, libInstr, repoInstr := 0, 0, 0
	ld.p.encoded.Range(func(k, v any) bool {
		f := k.(*Func)
		if (f.inRepo || strings.Contains(f.name, "/zzverif/gen/") && strings.HasSuffix(f.name[:strings.LastIndex(f.name, "/")+1], "/zzverif/gen/")) && !strings.Contains(f.name, "Verif_") {
			fns = append(fns, f.name)
			repoInstr += f.ninstr
		} else {
			libs++
			libInstr += f.ninstr
		}
		return true
	})
	sort.Strings(fns)
	if fns == nil {
		fns = []string{}
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": res.validated, "samples": samples,
		"exhaustive":            exhaustive,
		"harnesses":             per,
		"functions_encoded":     fns,
		"repo_ssa_instructions": repoInstr, "library_functions_encoded": libs, "library_ssa_instructions": libInstr,
		"assertions_decided": asserts, "infeasible_paths": infeasible,
		"queries":        map[string]any{"discharged": sol.Queries, "sat": sol.Sat, "unsat": sol.Unsat, "unknown": sol.Unknown, "answered_from_cache": sol.CacheHit, "solver_s": sol.Time.Seconds(), "max_query_s": sol.MaxTime.Seconds(), "solver": "z3-new"},
		"cross_check":    map[string]any{"solver": "cvc5", "queries": sol.Second, "agreed": sol.Agreed, "answered_only_by_it": sol.Resolved, "disagreed": len(sol.Differ), "solver_s": sol.SecondT.Seconds()},
		"reduced_bounds": incomplete, "witnesses_not_reached": unreached, "unconfirmed_candidates": res.unconfirmed,
		"encoding_disagreements": res.disagree, "notes": res.notes, "harness_files_dropped": ld.dropped,
		"known_findings_reproduced": sortedKeys(res.knownHit),
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": 1, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions(hs), "wall_s": time.Since(start).Seconds(), "violations": len(res.confirmed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func assumptions(hs []*harness) []string {
	out := []string{
		"Inputs are bounded as each harness states (see coverage.harnesses[].bounds); nothing is claimed outside these bounds.",
		"encoding/json, fmt, reflect, sync, time.Now, regexp, os and text/template are modelled by the engine (validated by replaying sampled paths natively); other library code is executed symbolically from its SSA.",
		"The SSA is built by golang.org/x/tools from the current tree for GOOS/GOARCH of this sandbox, CGO disabled.",
	}
	seen := map[string]bool{}
	for _, h := range hs {
		for _, l := range strings.Split(h.doc, "\n") {
			if strings.HasPrefix(l, "Assumes:") && !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	return out
}

