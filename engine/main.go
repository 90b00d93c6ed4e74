package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

const repoModule = "github.com/sfomuseum/go-edtf"

type options struct {
	verif, repo, prop, tier, only string
	seed                          int64
	budget                        int
	workers                       int
	timeoutMs                     int
	noReplay                      bool
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|list|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("engine", flag.ExitOnError)
	var o options
	fs.StringVar(&o.verif, "verif", "/verif", "")
	fs.StringVar(&o.repo, "repo", "/repo", "")
	fs.StringVar(&o.prop, "prop", "", "property id")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.StringVar(&o.only, "only", "", "regexp of harness names")
	fs.Int64Var(&o.seed, "seed", 1, "")
	fs.IntVar(&o.budget, "budget", 60, "seconds of exploration")
	fs.IntVar(&o.workers, "workers", 8, "")
	fs.IntVar(&o.timeoutMs, "timeout", 20000, "solver time-out per query, ms")
	fs.BoolVar(&o.noReplay, "noreplay", false, "")
	fs.BoolVar(&debugFlag, "debug", false, "")
	forks := fs.Bool("forks", false, "")
	profFile := fs.String("cpuprofile", "", "")
	fs.Parse(os.Args[2:])
	if *forks {
		branchProf = &prof{n: map[string]int{}}
	}
	if *profFile != "" {
		f, _ := os.Create(*profFile)
		pprof.StartCPUProfile(f)
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(o)
	case "replay":
		code = replayFile(o, fs.Arg(0))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		code = 2
	}
	if branchProf != nil {
		branchProf.dump()
	}
	if *profFile != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

// ---- native replay

type replayer struct {
	bin, tools string
	race       bool
	err        error
	done       chan struct{}
}

type request struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    int               `json:"tier"`
}

type response struct {
	Fails   []string `json:"fails"`
	Obs     []string `json:"obs"`
	Panic   string   `json:"panic,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Stopped bool     `json:"stopped,omitempty"`
	Hang    bool     `json:"hang,omitempty"`
	Crash   bool     `json:"crash,omitempty"`
}

func buildEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

func startReplayer(o options, tools bool, w *wasi) *replayer {
	r := &replayer{done: make(chan struct{}), race: o.prop == "C19"}
	dir := filepath.Join(o.verif, ".build", fmt.Sprintf("replay-%s-%d", o.prop, os.Getpid()))
	r.bin = filepath.Join(dir, "replay")
	r.tools = filepath.Join(dir, "tools")
	go func() {
		defer close(r.done)
		os.MkdirAll(r.tools, 0o755)
		c := exec.Command("go", "build", "-o", r.bin, "./replay")
		c.Dir = filepath.Join(o.verif, "harness")
		c.Env = buildEnv()
		if r.race {
			c.Args = []string{"go", "build", "-race", "-o", r.bin, "./replay"}
			c.Env = append(c.Env, "CGO_ENABLED=1")
		}
		if out, err := c.CombinedOutput(); err != nil {
			r.err = fmt.Errorf("building the replay program: %v: %s", err, out)
			return
		}
		if !tools {
			return
		}
		for _, t := range []string{"parse", "matches", "parse-wasi"} {
			c := exec.Command("go", "build", "-o", filepath.Join(r.tools, t), repoModule+"/cmd/"+t)
			if t == "parse-wasi" {
				if w == nil {
					continue
				}
				c.Args = append(c.Args[:2:2], append([]string{"-overlay", w.list}, c.Args[2:]...)...)
			}
			c.Dir = filepath.Join(o.verif, "harness")
			c.Env = buildEnv()
			if out, err := c.CombinedOutput(); err != nil {
				r.err = fmt.Errorf("building %s: %v: %s", t, err, out)
				return
			}
		}
	}()
	return r
}

// wasi is the command for WASI as one for this platform: its file without the build
// constraint, and the overlay that adds it.
type wasi struct {
	files map[string][]byte
	dir   string
	list  string
}

// nativeWasi is nil when the command does not build here.
func nativeWasi(o options) *wasi {
	pkg := filepath.Join(o.repo, "cmd", "parse-wasi")
	src, err := os.ReadFile(filepath.Join(pkg, "main.go"))
	if err != nil {
		return nil
	}
	src = regexp.MustCompile(`(?m)^//(go:build|export|go:wasmexport).*$`).ReplaceAll(src, nil)
	dir := filepath.Join(o.verif, ".build", fmt.Sprintf("wasi-%d", os.Getpid()))
	w := &wasi{dir: dir, list: filepath.Join(dir, "overlay.json"), files: map[string][]byte{filepath.Join(pkg, "zz_native.go"): src}}
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, "main.go")
	os.WriteFile(file, src, 0o644)
	b, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(pkg, "zz_native.go"): file}})
	os.WriteFile(w.list, b, 0o644)
	c := exec.Command("go", "build", "-overlay", w.list, "-o", filepath.Join(dir, "out"), repoModule+"/cmd/parse-wasi")
	c.Dir = filepath.Join(o.verif, "harness")
	c.Env = buildEnv()
	if c.Run() != nil {
		w.remove()
		return nil
	}
	return w
}

func (w *wasi) remove() {
	if w != nil {
		os.RemoveAll(w.dir)
	}
}

func (r *replayer) remove() {
	<-r.done
	os.RemoveAll(filepath.Dir(r.bin))
}

// run replays the requests; a crash or a hang ends the process, which is then
// started again for the rest.
func (r *replayer) run(reqs []request) ([]response, error) {
	<-r.done
	if r.err != nil {
		return nil, r.err
	}
	var out []response
	for len(out) < len(reqs) {
		n := len(out)
		rd, wr, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		c := exec.Command(r.bin)
		c.Env = append(os.Environ(), "TZ=UTC", "VERIF_TOOLS="+r.tools, "GOMEMLIMIT=4GiB", "GORACE=exitcode=0 atexit_sleep_ms=0 log_path=/dev/null")
		c.ExtraFiles = []*os.File{wr}
		in, _ := c.StdinPipe()
		if err := c.Start(); err != nil {
			return nil, err
		}
		wr.Close()
		batch := reqs[n:]
		if r.race && len(batch) > 1 {
			batch = batch[:1] // what a first call leaves behind hides later races
		}
		go func() {
			enc := json.NewEncoder(in)
			for _, q := range batch {
				if enc.Encode(q) != nil {
					break
				}
			}
			in.Close()
		}()
		sc := bufio.NewScanner(rd)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var resp response
			if err := json.Unmarshal(sc.Bytes(), &resp); err != nil {
				break
			}
			out = append(out, resp)
		}
		rd.Close()
		err = c.Wait()
		if len(out) < len(reqs) && err != nil && (len(out) == n || !out[len(out)-1].Hang) {
			out = append(out, response{Crash: true, Fails: []string{"panic"}, Panic: "the process died: " + err.Error()})
		} else if err == nil && len(out) == n {
			return nil, fmt.Errorf("the replay program gave no answer")
		}
	}
	return out, nil
}

func inputs(m Model) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v.String()
	}
	return r
}

// ---- known findings

type finding struct {
	prop, harness, label string
	input                *regexp.Regexp
	what                 string
}

// knownFindings reads the lines
// finding: property=ID harness=NAME label=LABEL input=/REGEXP/ WHAT
func knownFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) label=(\S+) input=/(.*)/ (.+)$`)
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[1], m[2], m[3], regexp.MustCompile(m[4]), m[5]})
		}
	}
	return out
}

// ---- check

func check(o options) int {
	start := time.Now()
	tier := 0
	if o.tier == "thorough" {
		tier = 1
	}
	tools := o.prop == "C24"
	var w *wasi
	if tools {
		w = nativeWasi(o)
	}
	defer w.remove()
	rep := startReplayer(o, tools, w)
	defer rep.remove()
	var extra []string
	var overlay map[string][]byte
	if tools {
		extra = []string{repoModule + "/cmd/parse", repoModule + "/cmd/matches"}
		if w != nil {
			extra = append(extra, repoModule+"/cmd/parse-wasi")
			overlay = w.files
		}
	}
	P, hs, err := load(filepath.Join(o.verif, "harness"), repoModule, overlay, extra...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	names := harnessNames(hs, o.prop)
	if o.only != "" {
		re := regexp.MustCompile(o.only)
		var f []string
		for _, n := range names {
			if re.MatchString(n) {
				f = append(f, n)
			}
		}
		names = f
	}
	if tools && w == nil {
		var f []string
		for _, n := range names {
			if n != "C24_wasi" {
				f = append(f, n)
			}
		}
		names = f
		fmt.Println("note: the command for WASI does not build for this platform; C24_wasi is left out")
	}
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "error: no harness for", o.prop)
		return 2
	}
	loadT := time.Since(start)
	e := newExplorer(P, names, hs, tier, o.workers, o.timeoutMs, time.Duration(o.budget)*time.Second, o.seed)
	e.run()
	exploreT := time.Since(start) - loadT

	known := knownFindings(filepath.Join(o.verif, "known_findings.txt"))
	violations := 0
	var reqs []request
	type meta struct {
		h     *harnessState
		f     *failure
		w     *witness
		unsup bool
	}
	var metas []meta
	for _, h := range e.hs {
		var labels []string
		for l := range h.fails {
			labels = append(labels, l)
		}
		sort.Strings(labels)
		for _, l := range labels {
			for i := range h.fails[l] {
				f := &h.fails[l][i]
				reqs = append(reqs, request{h.name, inputs(f.Model), tier})
				metas = append(metas, meta{h: h, f: f})
			}
		}
		for i := range h.samples {
			w := &h.samples[i]
			reqs = append(reqs, request{h.name, inputs(w.Model), tier})
			metas = append(metas, meta{h: h, w: w})
		}
		for i := range h.unsup {
			w := &h.unsup[i]
			reqs = append(reqs, request{h.name, inputs(w.Model), tier})
			metas = append(metas, meta{h: h, w: w, unsup: true})
		}
	}
	var resps []response
	if !o.noReplay {
		resps, err = rep.run(reqs)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
	}
	validated, mismatched, unreproduced := 0, 0, 0
	var notes []string
	seen := map[string]bool{}
	knownSeen := map[string]bool{}
	report := func(h *harnessState, label string, m Model, r response, how string) {
		for _, k := range known {
			if k.prop == o.prop && k.harness == h.name && k.label == label && k.input.MatchString(showModel(m)) {
				if !knownSeen[k.what] {
					knownSeen[k.what] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.what)
				}
				return
			}
		}
		key := h.name + "/" + label
		if seen[key] {
			return
		}
		seen[key] = true
		violations++
		path := writeReplay(o, h.name, label, m, r, tier)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		fmt.Printf("  harness %s, assertion %q (%s):%s\n", h.name, label, how, showModel(m))
		if r.Panic != "" {
			fmt.Printf("  panic: %s\n", r.Panic)
		}
		for _, s := range r.Obs {
			fmt.Printf("  %s\n", s)
		}
	}
	for i, r := range resps {
		mt := metas[i]
		if mt.f != nil {
			hit := false
			for _, l := range r.Fails {
				if l == mt.f.Label || (mt.f.Label == "panic" && (r.Hang || r.Crash)) {
					hit = true
				}
			}
			if hit {
				report(mt.h, mt.f.Label, mt.f.Model, r, "solver counterexample, reproduced natively")
			} else if len(r.Fails) > 0 {
				report(mt.h, r.Fails[0], mt.f.Model, r, "solver counterexample, natively another assertion fails")
			} else {
				unreproduced++
				if len(notes) < 20 {
					notes = append(notes, fmt.Sprintf("%s: counterexample to %q not reproduced natively:%s %s obs=%v", mt.h.name, mt.f.Label, showModel(mt.f.Model), mt.f.Msg, r.Obs))
				}
			}
			continue
		}
		if len(r.Fails) > 0 {
			how := "path witness, native run"
			if !mt.unsup {
				mismatched++
				notes = append(notes, fmt.Sprintf("%s: the engine found no failure where the native run has one:%s", mt.h.name, showModel(mt.w.Model)))
			}
			report(mt.h, r.Fails[0], mt.w.Model, r, how)
			continue
		}
		if mt.unsup {
			continue
		}
		var es []string
		for _, ob := range mt.w.Obs {
			es = append(es, ob.Label+"="+ob.Val)
		}
		if strings.Join(es, "\n") != strings.Join(r.Obs, "\n") || r.Stopped {
			mismatched++
			if len(notes) < 20 {
				notes = append(notes, fmt.Sprintf("%s: engine and native run differ:%s engine=%v native=%v stopped=%v", mt.h.name, showModel(mt.w.Model), es, r.Obs, r.Stopped))
			}
		} else {
			validated++
		}
	}
	code := 0
	if violations > 0 {
		code = 1
	}
	writeEvidence(o, e, tier, violations, validated, mismatched, unreproduced, notes, start, loadT, exploreT)
	for _, h := range e.hs {
		st := "exhausted"
		if !h.exhausted() {
			st = fmt.Sprintf("NOT exhausted (%d open, %d inconclusive)", len(h.queue), len(h.inconcl))
		}
		fmt.Printf("%-40s paths %6d asserts %7d branches %8d %7.1fs %s\n", h.name, h.paths, h.asserts, h.branches, h.secs, st)
		for m, n := range h.inconcl {
			fmt.Printf("    inconclusive x%d: %s e.g.%s\n", n, m, showModel(h.inconEx[m]))
		}
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s %s: %d harnesses, %d queries (%d unsat, %d sat, %d unknown, %d errors) solver %.1fs, replays %d ok %d mismatched, %d unreproduced, %d violations, load %.1fs explore %.1fs wall %.1fs\n",
		o.prop, o.tier, len(e.hs), e.stats.Queries, e.stats.Unsat, e.stats.Sat, e.stats.Unknown, e.stats.Errors, e.stats.Time.Seconds(), validated, mismatched, unreproduced, violations, loadT.Seconds(), exploreT.Seconds(), time.Since(start).Seconds())
	return code
}

func writeReplay(o options, h, label string, m Model, r response, tier int) string {
	dir := filepath.Join(o.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	clean := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(label, "_")
	path := filepath.Join(dir, h+"."+clean+".json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": o.prop, "harness": h, "label": label, "tier": tier, "inputs": inputs(m), "shown": showModel(m),
		"native": r, "replay_cmd": "bash /verif/tools/replay.sh " + path,
	}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func replayFile(o options, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d struct {
		Property, Harness string
		Tier              int
		Inputs            map[string]string
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.prop = d.Property
	var w *wasi
	if d.Property == "C24" {
		w = nativeWasi(o)
	}
	defer w.remove()
	rep := startReplayer(o, d.Property == "C24", w)
	defer rep.remove()
	rs, err := rep.run([]request{{d.Harness, d.Inputs, d.Tier}})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	out, _ := json.MarshalIndent(rs[0], "", " ")
	fmt.Println(string(out))
	if len(rs[0].Fails) > 0 {
		return 1
	}
	return 0
}

func writeEvidence(o options, e *Explorer, tier, violations, validated, mismatched, unreproduced int, notes []string, start time.Time, loadT, exploreT time.Duration) {
	readBounds(o.verif)
	var paths, asserts, trivial, branches, steps int64
	hs := map[string]interface{}{}
	exh := true
	var samples []interface{}
	for _, h := range e.hs {
		paths += h.paths
		asserts += h.asserts
		trivial += h.trivial
		branches += h.branches
		steps += h.steps
		if !h.exhausted() {
			exh = false
		}
		var cov []string
		for c := range h.covers {
			cov = append(cov, c)
		}
		sort.Strings(cov)
		hs[h.name] = map[string]interface{}{"paths": h.paths, "infeasible_by_assumption": h.infeas, "asserts": h.asserts, "decided_by_simplification": h.trivial, "branches": h.branches,
			"open_regions": len(h.queue), "exhausted": h.exhausted(), "inconclusive": h.inconcl, "covers": cov, "bounds": bounds[h.name], "cpu_s": round(h.secs)}
		for i, s := range h.samples {
			if i < 2 {
				samples = append(samples, h.name+":"+showModel(s.Model))
			}
		}
	}
	var fns, intr []string
	for f := range e.usedFns {
		fns = append(fns, f.String())
	}
	for f := range e.usedIntr {
		intr = append(intr, f)
	}
	sort.Strings(fns)
	sort.Strings(intr)
	var repoFns []string
	lib := 0
	for _, f := range fns {
		if strings.Contains(f, repoModule) {
			repoFns = append(repoFns, f)
		} else {
			lib++
		}
	}
	if samples == nil {
		samples = []interface{}{"none"}
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking",
		"wall_s": round(time.Since(start).Seconds()), "violations": violations,
		"coverage": map[string]interface{}{
			"states": paths, "transitions": branches, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exh,
			"explanation":                "states are feasible execution paths of the harnesses (each stands for every input that follows it), transitions are symbolic branch decisions; every assertion on a path is decided for all inputs of the path",
			"instructions":               steps,
			"assertions":                 asserts,
			"assertions_by_simplifier":   trivial,
			"queries_discharged":         e.stats.Queries,
			"queries_unsat":              e.stats.Unsat,
			"queries_sat":                e.stats.Sat,
			"queries_unknown":            e.stats.Unknown,
			"queries_second_solver":      e.stats.Fallback,
			"single_byte_domain_queries": e.domain,
			"queries_answered_by_an_earlier_identical_one": e.cached,
			"solver_s":                   round(e.stats.Time.Seconds()),
			"load_s":                     round(loadT.Seconds()),
			"explore_s":                  round(exploreT.Seconds()),
			"functions_encoded":          repoFns,
			"library_functions_encoded":  lib,
			"library_functions_modelled": intr,
			"harnesses":                  hs,
			"witness_mismatches":         mismatched,
			"unreproduced":               unreproduced,
			"notes":                      notes,
		},
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

var bounds = map[string]string{}

// readBounds takes each harness's stated bounds from its doc comment.
func readBounds(verif string) {
	files, _ := filepath.Glob(filepath.Join(verif, "harness", "props", "*.go"))
	doc := regexp.MustCompile(`(?m)^((?://.*\n)+)func (C\d\d_\w+)\(\)`)
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range doc.FindAllStringSubmatch(string(src), -1) {
			var words []string
			for _, line := range strings.Split(strings.TrimSpace(m[1]), "\n") {
				words = append(words, strings.TrimSpace(strings.TrimPrefix(line, "//")))
			}
			bounds[m[2]] = strings.TrimPrefix(strings.Join(words, " "), m[2]+": ")
		}
	}
}

var assumptions = []string{
	"the inputs lie within the bounds stated per harness; nothing is claimed outside them",
	"the library functions listed under library_functions_modelled behave as documented (their models are compared with native runs on every path witness sampled)",
	"the process runs with TZ=UTC",
	"the golang.org/x/tools SSA form and z3 are trusted; counterexamples are reported only after they reproduce natively",
}
