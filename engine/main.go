package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

const module = "github.com/Bren2010/katie"

// HarnessSpec is one entry of the registry.
type HarnessSpec struct {
	Func     string         `json:"func"`
	Pkg      string         `json:"pkg"`
	About    string         `json:"about"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	TimeQ    int            `json:"time_q"`
	TimeT    int            `json:"time_t"`
	Steps    int64          `json:"steps"`
	Depth    int            `json:"depth"`
	Alloc    int64          `json:"alloc"`
	Enum     int            `json:"enum"`
	Covers   []string       `json:"covers"`
	Workers  int            `json:"workers"`
	Solver   string         `json:"solver"`
	NoWit    bool           `json:"nowitness"`
	Only     string         `json:"only"` // restrict to a tier
}

// PropSpec is the registry's description of one property's check.
type PropSpec struct {
	Harnesses   []HarnessSpec `json:"harnesses"`
	Bounds      string        `json:"bounds"`
	Outside     string        `json:"outside"`
	Assumptions []string      `json:"assumptions"`
	Level       string        `json:"level"`
	Stubs       []string      `json:"stubs"` // packages outside the repository that are replaced by models
	Rewrites    []Rewrite     `json:"rewrites"`
}

// Rewrite loads the packages of a directory of the repository with some of
// their imports replaced by models.
type Rewrite struct {
	Dir     string            `json:"dir"`
	Imports map[string]string `json:"imports"` // import path -> model, below the module's path
}

type harnessReport struct {
	Harness      string         `json:"harness"`
	About        string         `json:"about"`
	Params       map[string]int `json:"bounds"`
	Paths        int            `json:"paths_completed"`
	Pruned       int            `json:"paths_pruned_by_assumptions_or_skips"`
	Branches     int            `json:"branch_decisions"`
	Obligations  int            `json:"assertions_decided"`
	Trivial      int            `json:"assertions_decided_by_simplification"`
	Queries      int            `json:"smt_queries"`
	CacheHits    int            `json:"smt_query_cache_hits"`
	Unknowns     int            `json:"smt_unknowns"`
	SolverS      float64        `json:"solver_s"`
	WallS        float64        `json:"wall_s"`
	MaxPC        int            `json:"longest_path_condition"`
	Steps        int64          `json:"ssa_instructions_executed"`
	Complete     bool           `json:"bound_exhausted"`
	Incomplete   map[string]int `json:"incomplete,omitempty"`
	Covers       map[string]int `json:"reachability_witnesses,omitempty"`
	MissingCover []string       `json:"missing_witnesses,omitempty"`
	Replayed     int            `json:"path_witnesses_replayed_natively"`
	ReplayOK     int            `json:"path_witnesses_agreeing_natively"`
	Mismatch     []string       `json:"path_witness_disagreements,omitempty"`
	Samples      []string       `json:"samples,omitempty"`
	Violations   int            `json:"counterexamples"`
	Unconfirmed  []string       `json:"unconfirmed_counterexamples,omitempty"`
	Known        []string       `json:"known_findings,omitempty"`
}

type replayResult struct {
	Status string          `json:"status"` // ok, fail, stop, hang, crash
	Msg    string          `json:"msg"`
	Covers map[string]bool `json:"covers"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifengine check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func readRegistry(verif, prop string) (*PropSpec, error) {
	b, err := os.ReadFile(filepath.Join(verif, "harness", "registry", prop+".json"))
	if err != nil {
		return nil, err
	}
	var s PropSpec
	if err := json.Unmarshal(b, &s); err != nil {
		return nil, fmt.Errorf("registry %s: %w", prop, err)
	}
	return &s, nil
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	only := fs.String("only", "", "run only this harness function")
	solver := fs.String("solver", "z3-new", "")
	workers := fs.Int("workers", 8, "")
	dbg := fs.Bool("v", false, "")
	noreplay := fs.Bool("noreplay", false, "")
	prof := fs.String("prof", "", "")
	set := fs.String("set", "", "override parameters k=v,...")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	debugLog = *dbg
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	spec, err := readRegistry(*verif, *prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	findings := readFindings(filepath.Join(*verif, "known_findings.txt"), *prop)
	over, err := overlay(*verif, *repo, *prop)
	var undo func()
	if err == nil {
		undo, err = rewrite(*repo, spec.Rewrites, over)
		defer undo()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pk := map[string]bool{}
	for _, h := range spec.Harnesses {
		pk[module+"/"+h.Pkg] = true
	}
	var notes []string
	mf, done, err := makeModfile(*verif, *repo, spec.Stubs)
	defer done()
	var ld *loaded
	if err == nil {
		ld, err = load(*repo, module, over, sortedKeys(pk), mf)
	}
	if err != nil {
		notes = append(notes, "the harnesses could not be loaded against the current tree: "+err.Error())
		fmt.Println("NOTE:", err)
		ld = &loaded{}
	}
	for _, d := range ld.dropped {
		fmt.Println("NOTE:", d)
		notes = append(notes, d)
	}
	loadS := time.Since(t0).Seconds()
	if *dbg {
		fmt.Printf("loaded in %.1fs\n", loadS)
	}
	rp := &replayer{verif: *verif, repo: *repo, over: ld.over, spec: spec, ld: ld, modfile: mf}
	defer rp.close()

	var reports []*harnessReport
	var printed []string
	exit := 0
	overall := 780
	if *tier == "thorough" {
		overall = 3 * 3600
	}
	hardEnd := t0.Add(time.Duration(overall) * time.Second)
	nviol, loose := 0, 0
	allCovered := map[string]bool{}
	knownSeen := map[string]string{}
	for hi := range spec.Harnesses {
		h := &spec.Harnesses[hi]
		if exit == 1 && *tier == "quick" {
			break
		}
		if *only != "" && h.Func != *only {
			continue
		}
		if h.Only != "" && h.Only != *tier {
			continue
		}
		sp := ld.pkgs[module+"/"+h.Pkg]
		if sp == nil || sp.Func(h.Func) == nil {
			notes = append(notes, "harness "+h.Func+" is unavailable")
			loose++
			continue
		}
		params := map[string]int{}
		for k, v := range h.Quick {
			params[k] = v
		}
		tl := h.TimeQ
		if tl == 0 {
			tl = 60
		}
		if *tier == "thorough" {
			for k, v := range h.Thorough {
				params[k] = v
			}
			tl = h.TimeT
			if tl == 0 {
				tl = 1200
			}
		}
		if *set != "" {
			for _, kv := range strings.Split(*set, ",") {
				p := strings.SplitN(kv, "=", 2)
				n, _ := strconv.Atoi(p[1])
				params[p[0]] = n
			}
		}
		cfg := &HarnessCfg{Name: h.Func, MaxSteps: h.Steps, MaxDepth: h.Depth, AllocLimit: h.Alloc, MaxEnum: h.Enum, Params: params}
		if cfg.MaxSteps == 0 {
			cfg.MaxSteps = 20_000_000
		}
		if cfg.MaxDepth == 0 {
			cfg.MaxDepth = 2000
		}
		if cfg.MaxEnum == 0 {
			cfg.MaxEnum = 300
		}
		dl := time.Now().Add(time.Duration(tl) * time.Second)
		if dl.After(hardEnd) {
			dl = hardEnd
		}
		sv := *solver
		if h.Solver != "" {
			sv = h.Solver
		}
		nw := *workers
		if h.Workers > 0 {
			nw = h.Workers
		}
		ex := NewExplorer(ld.p, ld.p.info(sp.Func(h.Func)), cfg, nw, dl, sv)
		th := time.Now()
		ex.Run()
		r := &harnessReport{Harness: h.Pkg + "." + h.Func, About: h.About, Params: params, Paths: ex.Paths, Pruned: ex.Killed, Branches: ex.Branches,
			Obligations: ex.Asserts, Trivial: ex.AssertsTriv, Queries: ex.Queries, CacheHits: ex.CacheHits, Unknowns: ex.Unknowns,
			SolverS: round3(ex.SolverTime.Seconds()), WallS: round3(time.Since(th).Seconds()), MaxPC: ex.MaxPC, Steps: ex.Steps,
			Complete: !ex.TimedOut && len(ex.Incomplete) == 0, Incomplete: ex.Incomplete, Covers: ex.Covers, Samples: ex.Samples, Violations: len(ex.Violations)}
		if ex.TimedOut {
			if r.Incomplete == nil {
				r.Incomplete = map[string]int{}
			}
			r.Incomplete[fmt.Sprintf("time limit of %d s", tl)] = len(ex.queue)
		}
		for _, c := range h.Covers {
			if ex.Covers[c] == 0 {
				r.MissingCover = append(r.MissingCover, c)
			}
		}
		for n := range ex.Notes {
			notes = append(notes, n)
		}
		// counterexamples
		sort.SliceStable(ex.Violations, func(i, j int) bool { return ex.Violations[i].Msg < ex.Violations[j].Msg })
		confirmed := 0
		for _, v := range ex.Violations {
			v.Pkg, v.Params = h.Pkg, params
			if *dbg {
				fmt.Printf("COUNTEREXAMPLE %s: %s [%s] known=%q\n  stack %s\n  vars %v\n  choices %v\n", v.Harness, v.Msg, v.Where, v.Known, v.Stack, v.Vars, v.Choices)
			}
			if v.Known != "" {
				if _, ok := findings[v.Known]; !ok {
					v.Known = "" // not a listed finding: an ordinary violation
				} else if knownSeen[v.Known] != "" {
					continue
				}
			}
			if confirmed >= 3 && v.Known == "" {
				continue
			}
			var res replayResult
			ok := false
			if *noreplay {
				res.Status, ok = "fail", true
			} else {
				for try := 0; try < 5 && !ok; try++ {
					res = rp.run(v)
					ok = res.Status == "fail" || res.Status == "crash" || (res.Status == "hang" && (v.Hang || try > 0))
					if res.Status == "hang" && v.Hang {
						ok = true
					}
					if res.Status == "error" {
						break
					}
				}
			}
			if *dbg {
				fmt.Printf("  replay: %s %s\n", res.Status, res.Msg)
			}
			if !ok {
				r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s [%s]: native replay says %s %s", v.Msg, v.Where, res.Status, res.Msg))
				continue
			}
			if v.Known != "" {
				knownSeen[v.Known] = v.Msg
				r.Known = append(r.Known, v.Known)
				printed = append(printed, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", *prop, v.Known, findings[v.Known]))
				continue
			}
			confirmed++
			nviol++
			path := filepath.Join(*verif, "evidence", fmt.Sprintf("%s-cex-%d.json", *prop, nviol))
			v.Replay = res.Status + ": " + res.Msg
			b, _ := json.MarshalIndent(v, "", " ")
			os.MkdirAll(filepath.Dir(path), 0o755)
			os.WriteFile(path, b, 0o644)
			printed = append(printed, fmt.Sprintf("violated: %s: %s [%s] native replay: %s", h.Func, v.Msg, v.Where, firstLine(res.Msg)),
				fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path))
			exit = 1
		}
		// replay sample paths natively: the encoding must agree with the compiled code
		if !h.NoWit && !*noreplay && exit == 0 {
			for _, v := range ex.Witnesses {
				v.Pkg, v.Params = h.Pkg, params
				res := rp.run(v)
				if res.Status == "error" {
					notes = append(notes, "native replay unavailable: "+res.Msg)
					break
				}
				r.Replayed++
				same := res.Status == "ok" && len(res.Covers) == len(v.Covers)
				for c := range v.Covers {
					same = same && res.Covers[c]
				}
				if same {
					r.ReplayOK++
				} else {
					if os.Getenv("VERIF_KEEP") != "" {
						b, _ := json.Marshal(v)
						os.WriteFile(filepath.Join(rp.dir, fmt.Sprintf("mismatch-%d.json", len(r.Mismatch))), b, 0o644)
						fmt.Println("kept in", rp.dir)
					}
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("native %s %s covers %v, engine covers %v", res.Status, res.Msg, sortedKeys(res.Covers), sortedKeys(v.Covers)))
				}
			}
		}
		reports = append(reports, r)
		if len(r.Mismatch)+len(r.MissingCover)+len(r.Unconfirmed) > 0 || !r.Complete || !h.NoWit && !*noreplay && exit == 0 && r.Replayed == 0 {
			loose++
		}
		if *dbg || *only != "" {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
		} else {
			fmt.Printf("%s: %d paths, %d pruned, %d assertions, %d queries, %.1fs (solver %.1fs), exhausted=%v, replays %d/%d, counterexamples %d (unconfirmed %d) missing covers %v\n",
				h.Func, r.Paths, r.Pruned, r.Obligations, r.Queries, r.WallS, r.SolverS, r.Complete, r.ReplayOK, r.Replayed, r.Violations, len(r.Unconfirmed), r.MissingCover)
			if len(r.Incomplete) > 0 {
				fmt.Println("  incomplete:", r.Incomplete)
			}
			for _, m := range r.Mismatch {
				fmt.Println("  mismatch:", m)
			}
			for _, m := range r.Unconfirmed {
				fmt.Println("  unconfirmed:", m)
			}
		}
		if exit == 1 && *tier == "quick" {
			break
		}
	}
	var fnsCov []string
	if ld.p != nil {
		ld.p.fns.Range(func(_, v any) bool {
			fi := v.(*fnInfo)
			if fi.repo && !fi.harness && atomic.LoadUint32(&fi.covered) != 0 {
				if !allCovered[fi.name] {
					allCovered[fi.name] = true
					fnsCov = append(fnsCov, strings.ReplaceAll(fi.name, module+"/", ""))
				}
			}
			return true
		})
	}
	sort.Strings(fnsCov)
	tot := struct{ paths, branches, q, obl, triv, rep int }{}
	var solverS float64
	complete := true
	samples := []string{}
	for _, r := range reports {
		tot.paths += r.Paths
		tot.branches += r.Branches
		tot.q += r.Queries
		tot.obl += r.Obligations
		tot.triv += r.Trivial
		tot.rep += r.ReplayOK
		solverS += r.SolverS
		complete = complete && r.Complete
		for i, s := range r.Samples {
			if i < 3 {
				samples = append(samples, r.Harness+": "+s)
			}
		}
	}
	sort.Strings(notes)
	if tot.paths == 0 {
		complete = false
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": envInt("VERIF_SEED", 0), "level": "model_checking",
		"coverage": map[string]any{
			"states": tot.paths, "transitions": tot.branches, "traces_validated_against_impl": tot.rep, "samples": samples,
			"meaning":           "states: symbolic paths completed (each stands for every input satisfying its path condition); transitions: symbolic branch decisions explored; traces_validated_against_impl: path witnesses whose native execution of the compiled code agreed with the symbolic path",
			"functions_encoded": fnsCov, "bounds": spec.Bounds, "outside_the_bounds": spec.Outside,
			"queries_discharged": tot.q, "assertions_decided": tot.obl, "assertions_decided_by_simplification": tot.triv, "solver_s": round3(solverS), "solver": *solver,
			"all_bounds_exhausted": complete, "harnesses": reports, "load_s": round3(loadS), "notes": notes,
		},
		"assumptions": append([]string{"go/ssa (x/tools v0.52.0) and the engine in /verif/engine translate Go faithfully (checked per run by replaying path witnesses natively)", "z3's verdicts are right"}, spec.Assumptions...),
		"wall_s":      round3(time.Since(t0).Seconds()),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if *only == "" {
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	for _, l := range printed {
		fmt.Println(l)
	}
	if (!complete || loose > 0) && exit == 0 && os.Getenv("VERIF_STRICT") != "" {
		fmt.Printf("%s INCOMPLETE\n", *prop)
		os.Exit(3)
	}
	if exit == 0 {
		fmt.Printf("%s held on everything explored (%s tier, %.1fs)\n", *prop, *tier, time.Since(t0).Seconds())
	}
	return exit
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func round3(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }

// readFindings returns the known findings of a property: name -> description.
// Line format: "finding: property=<id> name=<name> <description>".
func readFindings(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && strings.HasPrefix(f[2], "name=") {
			out[strings.TrimPrefix(f[2], "name=")] = f[3]
		}
	}
	return out
}

// ---- native replay ---------------------------------------------------------

type replayer struct {
	verif, repo string
	over        map[string]string
	spec        *PropSpec
	ld          *loaded
	dir         string
	bin         string
	err         string
	modfile     string
}

func (r *replayer) close() {
	if os.Getenv("VERIF_KEEP") != "" {
		return
	}
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *replayer) build() {
	if r.bin != "" || r.err != "" {
		return
	}
	dir, err := os.MkdirTemp("", "verifreplay")
	if err != nil {
		r.err = err.Error()
		return
	}
	r.dir = dir
	var imp, reg strings.Builder
	alias := map[string]string{}
	regd := map[string]bool{}
	for _, h := range r.spec.Harnesses {
		sp := r.ld.pkgs[module+"/"+h.Pkg]
		if sp == nil || sp.Func(h.Func) == nil {
			continue
		}
		a, ok := alias[h.Pkg]
		if !ok {
			a = fmt.Sprintf("p%d", len(alias))
			alias[h.Pkg] = a
			fmt.Fprintf(&imp, "\t%s %q\n", a, module+"/"+h.Pkg)
		}
		if key := h.Pkg + "." + h.Func; !regd[key] {
			regd[key] = true
			fmt.Fprintf(&reg, "\t%q: %s.%s,\n", key, a, h.Func)
		}
	}
	src := strings.NewReplacer("@IMPORTS@", imp.String(), "@REG@", reg.String(), "@MOD@", module).Replace(replayMain)
	ov, err := writeOverlayJSON(dir, r.repo, module, r.over, map[string][]byte{filepath.Join(r.repo, "zzverif/zzreplay/main.go"): []byte(src)})
	if err != nil {
		r.err = err.Error()
		return
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", ov, "-o", bin}
	if r.modfile != "" {
		args = append(args, "-modfile", r.modfile)
	}
	cmd := exec.Command("go", append(args, "./zzverif/zzreplay")...)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = "replay build: " + string(out)
		return
	}
	r.bin = bin
}

func (r *replayer) run(v *Violation) replayResult {
	r.build()
	if r.err != "" {
		return replayResult{Status: "error", Msg: r.err}
	}
	b, _ := json.Marshal(v)
	f := filepath.Join(r.dir, "witness.json")
	os.WriteFile(f, b, 0o644)
	to := 20 * time.Second
	if v.Hang {
		to = 8 * time.Second
	}
	cmd := exec.Command(r.bin, f)
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
	var out strings.Builder
	cmd.Stdout = &out
	var errb strings.Builder
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return replayResult{Status: "error", Msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(to):
		cmd.Process.Kill()
		<-done
		return replayResult{Status: "hang", Msg: "no answer within " + to.String()}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprint(os.Stderr, errb.String())
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "ZZRESULT ") {
			var res replayResult
			if json.Unmarshal([]byte(l[9:]), &res) == nil {
				return res
			}
		}
	}
	return replayResult{Status: "crash", Msg: firstLine(errb.String())}
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	spec, err := readRegistry(*verif, *prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	over, _ := overlay(*verif, *repo, *prop)
	undo, err := rewrite(*repo, spec.Rewrites, over)
	defer undo()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pk := map[string]bool{}
	for _, h := range spec.Harnesses {
		pk[module+"/"+h.Pkg] = true
	}
	mf, done, err := makeModfile(*verif, *repo, spec.Stubs)
	defer done()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ld, err := load(*repo, module, over, sortedKeys(pk), mf)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := &replayer{verif: *verif, repo: *repo, over: ld.over, spec: spec, ld: ld, modfile: mf}
	defer rp.close()
	res := rp.run(&v)
	fmt.Printf("%s: %s\n", res.Status, res.Msg)
	if res.Status == "ok" || res.Status == "stop" {
		return 0
	}
	return 1
}

const replayMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"@MOD@/zzverif/nd"
@IMPORTS@)

var harnesses = map[string]func(){
@REG@}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var w struct {
		nd.Witness
		Pkg string
	}
	if err := json.Unmarshal(b, &w); err != nil {
		panic(err)
	}
	f := harnesses[w.Pkg+"."+w.Harness]
	res := map[string]any{"status": "ok"}
	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case nd.Failure:
				res["status"], res["msg"] = "fail", r.Msg
			case nd.Stop:
				res["status"], res["msg"] = "stop", r.Why
			default:
				res["status"], res["msg"] = "fail", fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		nd.Load(&w.Witness)
		f()
	}()
	if res["status"] == "ok" && nd.AllocExceeded() {
		res["status"], res["msg"] = "fail", "allocated more than the limit"
	}
	res["covers"] = nd.Covers()
	out, _ := json.Marshal(res)
	fmt.Println("ZZRESULT " + string(out))
}
`
