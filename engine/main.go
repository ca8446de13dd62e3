package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/cloudprivacylabs/lpg/v2"

var (
	repoDir  = flag.String("repo", "/repo", "repository")
	verifDir = flag.String("verif", "/verif", "verification directory")
	propFlag = flag.String("property", "", "property id")
	harnFlag = flag.String("harness", "", "only harnesses matching this regexp")
	tierFlag = flag.String("tier", "", "quick or thorough (default VERIF_TIER)")
	workFlag = flag.Int("workers", 0, "workers")
	dlFlag   = flag.Int("deadline", 0, "exploration deadline in seconds")
	verbose  = flag.Bool("v", false, "verbose")
	solverF  = flag.String("solver", "z3", "solver binary")
	stepsF   = flag.Int64("steps", 3000000, "step limit per path")
)

type hcfg struct {
	harness string
	file    string
	tier    string
	params  map[string]int
	mapMode string
	label   string
	race    bool
	fn      *ssa.Function
}

func fatal(format string, a ...any) {
	fmt.Printf("CHECK-ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	debug.SetMaxStack(1 << 30)
	tier := *tierFlag
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	*tierFlag = tier
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	if *propFlag == "" {
		fatal("no property")
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal("%v", err)
	}
	c := &checker{prop: *propFlag, tier: tier, seed: seed, tmp: tmp, t0: t0}
	code := c.main()
	os.RemoveAll(tmp)
	os.Exit(code)
}

type checker struct {
	prop, tier string
	seed       int
	tmp        string
	t0         time.Time
	overlay    map[string][]byte
	ovFile     string
	cfgs       []hcfg
	eng        *Engine
	runs       []*Run
	bin        map[bool]string
	loadDur    time.Duration
	covers     map[string]bool // declared
}

func (c *checker) env() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
}

// buildOverlay lays the harness packages over the repository: zzsym, the
// common file and this property's harness file of zzverif, and zzreplay.
func (c *checker) buildOverlay() {
	c.overlay = map[string][]byte{}
	rep := map[string]string{}
	add := func(virt, real string) {
		b, err := os.ReadFile(real)
		if err != nil {
			fatal("%v", err)
		}
		c.overlay[virt] = b
		rep[virt] = real
	}
	hd := filepath.Join(*verifDir, "harness")
	add(filepath.Join(*repoDir, "zzsym", "zzsym.go"), filepath.Join(hd, "zzsym", "zzsym.go"))
	add(filepath.Join(*repoDir, "zzreplay", "main.go"), filepath.Join(hd, "zzreplay", "main.go"))
	ents, err := os.ReadDir(filepath.Join(hd, "zzverif"))
	if err != nil {
		fatal("%v", err)
	}
	hrx := regexp.MustCompile(`(?m)^func (H_(\w+?)_\w+)\(\)`)
	var names []string
	low := strings.ToLower(c.prop)
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		if !strings.HasPrefix(n, "common") && !strings.HasPrefix(n, low+"_") && n != low+".go" {
			continue
		}
		real := filepath.Join(hd, "zzverif", n)
		add(filepath.Join(*repoDir, "zzverif", n), real)
		src := c.overlay[filepath.Join(*repoDir, "zzverif", n)]
		for _, m := range hrx.FindAllSubmatch(src, -1) {
			names = append(names, string(m[1]))
		}
	}
	var sb strings.Builder
	sb.WriteString("package zzverif\n\nvar Harnesses = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(c.tmp, "registry.go")
	os.WriteFile(reg, []byte(sb.String()), 0o644)
	add(filepath.Join(*repoDir, "zzverif", "registry.go"), reg)
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	c.ovFile = filepath.Join(c.tmp, "overlay.json")
	os.WriteFile(c.ovFile, b, 0o644)
	if len(names) == 0 {
		fatal("no harness for %s", c.prop)
	}
}

func (c *checker) load() {
	t := time.Now()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     *repoDir,
		Env:     c.env(),
		Overlay: c.overlay,
		Fset:    token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, repoPath, repoPath+"/zzsym", repoPath+"/zzverif", "encoding/json", "bytes", "io", "errors", "fmt")
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Println("load:", e)
			bad = true
		}
	})
	if bad {
		fatal("the tree does not load")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	steps := *stepsF
	if *tierFlag == "thorough" {
		steps *= 10
	}
	e := &Engine{prog: prog, maxDepth: 1500, maxSteps: steps, solverBin: *solverF, solverTmo: 20000}
	e.sizes = types.SizesFor("gc", "amd64")
	byPath := map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		byPath[p.Pkg.Path()] = p
	}
	_ = spkgs
	e.repoPkg, e.symPkg, e.verifPkg = byPath[repoPath], byPath[repoPath+"/zzsym"], byPath[repoPath+"/zzverif"]
	e.rtErrType = e.symPkg.Pkg.Scope().Lookup("RuntimeError").Type()
	if fp := byPath["fmt"]; fp != nil {
		if o := fp.Pkg.Scope().Lookup("wrapError"); o != nil {
			e.wrapErrPtr = types.NewPointer(o.Type())
		}
	}
	e.errIface = types.Universe.Lookup("error").Type()
	e.errStrPtr = types.NewPointer(byPath["errors"].Pkg.Scope().Lookup("errorString").Type())
	w := byPath["io"].Pkg.Scope().Lookup("Writer").Type().Underlying().(*types.Interface)
	e.ioWriterWrite = w.Method(0)
	rd := byPath["io"].Pkg.Scope().Lookup("Reader").Type().Underlying().(*types.Interface)
	e.ioReaderRead = rd.Method(0)
	st := byPath["fmt"].Pkg.Scope().Lookup("Stringer").Type().Underlying().(*types.Interface)
	e.stringMethod = st.Method(0)
	er := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	e.errorMethod = er.Method(0)
	e.noInit = map[string]bool{"runtime": true, "unicode": true, "reflect": true, "os": true, "syscall": true, "time": true, "encoding/json": true, "encoding/json/jsontext": true, "encoding/json/v2": true}
	e.jsonPkg = byPath["encoding/json"]
	e.byPath = byPath
	e.workers = *workFlag
	if e.workers == 0 {
		e.workers = runtime.NumCPU()
	}
	c.eng = e
	// harness configurations
	c.covers = map[string]bool{}
	var hp *packages.Package
	for _, p := range pkgs {
		if p.PkgPath == repoPath+"/zzverif" {
			hp = p
		}
	}
	for _, f := range hp.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if ce, ok := n.(*ast.CallExpr); ok {
				if se, ok := ce.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Cover" && len(ce.Args) == 1 {
					if bl, ok := ce.Args[0].(*ast.BasicLit); ok {
						s, _ := strconv.Unquote(bl.Value)
						c.covers[s] = true
					}
				}
			}
			return true
		})
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_"+c.prop+"_") {
				continue
			}
			if *harnFlag != "" && !regexp.MustCompile(*harnFlag).MatchString(fd.Name.Name) {
				continue
			}
			n := 0
			if fd.Doc != nil {
				for _, l := range fd.Doc.List {
					txt, ok := strings.CutPrefix(l.Text, "//sym:")
					if !ok {
						continue
					}
					fs := strings.Fields(txt)
					h := hcfg{harness: fd.Name.Name, tier: fs[0], params: map[string]int{}, mapMode: "rev"}
					h.fn = e.verifPkg.Func(fd.Name.Name)
					for _, kv := range fs[1:] {
						if kv == "race" {
							h.race = true
							continue
						}
						k, v, _ := strings.Cut(kv, "=")
						if k == "maps" {
							h.mapMode = v
							continue
						}
						x, err := strconv.Atoi(v)
						if err != nil {
							fatal("%s: bad directive %q", fd.Name.Name, l.Text)
						}
						h.params[k] = x
					}
					h.label = txt
					n++
					if h.tier == "both" || h.tier == c.tier {
						c.cfgs = append(c.cfgs, h)
					}
				}
			}
			if n == 0 {
				c.cfgs = append(c.cfgs, hcfg{harness: fd.Name.Name, tier: "both", params: map[string]int{}, mapMode: "rev", fn: e.verifPkg.Func(fd.Name.Name)})
			}
		}
	}
	c.loadDur = time.Since(t)
	if len(c.cfgs) == 0 {
		fatal("no configuration for %s at tier %s", c.prop, c.tier)
	}
}

func (c *checker) main() int {
	c.buildOverlay()
	c.load()
	dl := *dlFlag
	if dl == 0 {
		dl = 420
		if c.tier == "thorough" {
			dl = 780
		}
	}
	deadline := c.t0.Add(time.Duration(dl) * time.Second)
	known := loadKnown(filepath.Join(*verifDir, "known-findings.txt"), c.prop)
	for i, h := range c.cfgs {
		r := NewRun(c.eng, c.prop, h.harness, h.fn, h.params)
		r.mapMode = h.mapMode
		r.seed = uint64(c.seed)
		// share the remaining time between the remaining configurations
		left := time.Until(deadline)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		share := left
		if n := len(c.cfgs) - i; n > 1 {
			share = left * 3 / time.Duration(n+2)
			if share > left {
				share = left
			}
		}
		r.deadline = time.Now().Add(share)
		r.unlisted = func(h, id string) bool { return known.match(Violation{Harness: h, ID: id}) == "" }
		r.Exec(c.eng.workers)
		c.runs = append(c.runs, r)
		fmt.Printf("%s [%s]: %d paths, %d infeasible, %d obligations (%d solver-decided), %d queries (%d sat, %d unsat, %d unknown, %d cached), solver %.1fs, %.1fs", h.harness, h.label, r.paths, r.infeasible, r.asserts, r.assertQ, r.queries, r.sats, r.unsats, r.unknowns, r.cacheHits, r.solverDur.Seconds(), r.wall.Seconds())
		if r.timedOut {
			fmt.Printf(" BOUND-REDUCED: deadline")
		}
		if r.unsupp > 0 {
			fmt.Printf(" BOUND-REDUCED: %d paths left the modelled fragment", r.unsupp)
			for _, k := range sortedKeys(r.unsuppMsgs) {
				fmt.Printf("; %d x %s", r.unsuppMsgs[k], k)
			}
		}
		if r.unknowns > 0 {
			fmt.Printf(" BOUND-REDUCED: %d solver unknowns", r.unknowns)
		}
		fmt.Println()
		if len(r.viols) > 0 {
			tot := 0
			for _, n := range r.violKeys {
				tot += n
			}
			fmt.Printf("  %d counterexample paths: %v\n", tot, r.violKeys)
		}
		if r.nunlisted > 0 && c.tier == "quick" && *harnFlag == "" {
			// a violation that the compiled program confirms settles the check
			stop := false
			for _, v := range r.viols {
				if !r.unlisted(v.Harness, v.ID) {
					continue
				}
				if ok, _ := c.confirm(v, h.race); ok {
					stop = true
					break
				}
			}
			if stop {
				break
			}
		}
	}
	return c.finish()
}

func (c *checker) buildReplay(race bool) (string, error) {
	if c.bin == nil {
		c.bin = map[bool]string{}
	}
	if b, ok := c.bin[race]; ok {
		return b, nil
	}
	out := filepath.Join(c.tmp, fmt.Sprintf("replay-%v", race))
	args := []string{"build", "-overlay", c.ovFile, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repoDir
	cmd.Env = c.env()
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, b)
	}
	c.bin[race] = out
	return out, nil
}

type replayItem struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
	Params  map[string]int `json:"params"`
	Runs    int            `json:"runs"`
	ID      string         `json:"id,omitempty"`
	Obs     []string       `json:"obs,omitempty"`
}

type replayRes struct {
	Status string   `json:"status"`
	ID     string   `json:"id"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func (c *checker) runReplay(bin, spec string, timeout time.Duration) ([]replayRes, string, bool, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, spec)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	err := cmd.Run()
	var rs []replayRes
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "{\"status\"") {
			var r replayRes
			if json.Unmarshal([]byte(l), &r) == nil {
				rs = append(rs, r)
			}
		}
	}
	return rs, se.String(), ctx.Err() != nil, err
}

func (c *checker) specFile(name string, items []replayItem) string {
	f := filepath.Join(c.tmp, name)
	b, _ := json.Marshal(items)
	os.WriteFile(f, b, 0o644)
	return f
}

// confirm replays one counterexample against the compiled program.
func (c *checker) confirm(v Violation, race bool) (bool, string) {
	bin, err := c.buildReplay(race)
	if err != nil {
		return false, err.Error()
	}
	runs := 300
	if v.Kind == "limit" {
		runs = 3
	}
	f := c.specFile("cex.json", []replayItem{{v.Harness, v.Inputs, v.Param, runs, v.ID, nil}})
	rs, stderr, timedOut, err := c.runReplay(bin, f, 30*time.Second)
	if timedOut {
		return v.Kind == "limit", "the compiled program does not terminate within 30 s"
	}
	if strings.Contains(stderr, "DATA RACE") {
		return true, "data race reported on the compiled program"
	}
	if strings.Contains(stderr, "fatal error: ") {
		i := strings.Index(stderr, "fatal error: ")
		l := stderr[i:]
		if j := strings.IndexByte(l, '\n'); j > 0 {
			l = l[:j]
		}
		return true, l
	}
	if len(rs) == 1 && (rs[0].Status == "assert" || rs[0].Status == "panic") {
		return true, rs[0].Status + " " + rs[0].ID + ": " + rs[0].Msg
	}
	if len(rs) == 1 {
		return false, "the compiled program does not fail on this input: " + rs[0].Status
	}
	return false, fmt.Sprintf("replay failed: %v %s", err, stderr)
}

func (c *checker) finish() int {
	known := loadKnown(filepath.Join(*verifDir, "known-findings.txt"), c.prop)
	code := 0
	nviol := 0
	confirmed := 0
	unconfirmed := []string{}
	raceOf := map[string]bool{}
	for _, h := range c.cfgs {
		if h.race {
			raceOf[h.harness] = true
		}
	}
	reported := map[string]bool{}
	for _, r := range c.runs {
		done := map[string]bool{}
		var failMsg = map[string]string{}
		for _, v := range r.viols {
			key := v.Harness + "|" + v.ID + "|" + v.Kind
			if done[key] {
				continue
			}
			ok, how := c.confirm(v, raceOf[v.Harness])
			if !ok {
				failMsg[key] = how
				continue
			}
			delete(failMsg, key)
			done[key] = true
			confirmed++
			if k := known.match(v); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
				continue
			}
			nviol++
			if reported[key] {
				continue
			}
			reported[key] = true
			path := c.writeReplay(v, how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
			fmt.Printf("  harness %s, %s: %s\n  inputs %v\n  compiled program: %s\n", v.Harness, v.ID, v.Msg, fmtInputs(v.Inputs), how)
			code = 1
		}
		for _, k := range sortedKeys(failMsg) {
			if strings.HasSuffix(k, "|frozen") {
				// a write that is properly synchronised is no interference
				fmt.Println("NOTE: write to shared state during a query, but no data race on the compiled program:", k)
				continue
			}
			if strings.HasSuffix(k, "|limit") && strings.HasSuffix(failMsg[k], ": ok") {
				// the path is long, but it ends
				fmt.Println("BOUND-REDUCED: paths longer than the step limit, which the compiled program completes:", k)
				r.unsupp++
				r.unsuppMsgs["paths longer than the step limit"]++
				continue
			}
			unconfirmed = append(unconfirmed, k+": "+failMsg[k])
		}
	}
	// validation of passing paths
	validated, failing, mismatches := c.validate()
	for _, v := range failing {
		// An order of map iteration, say, that the paths do not cover. The
		// compiled program fails the assertion, so it is a violation.
		key := v.Harness + "|" + v.ID + "|" + v.Kind
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
			continue
		}
		nviol++
		code = 1
		if !reported[key] {
			reported[key] = true
			path := c.writeReplay(v, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
			fmt.Printf("  harness %s, %s (on replaying a path that passed)\n  inputs %v\n  compiled program: %s\n", v.Harness, v.ID, fmtInputs(v.Inputs), v.Msg)
		}
	}
	for _, m := range mismatches {
		fmt.Println("MODEL-MISMATCH:", m)
	}
	for _, u := range unconfirmed {
		fmt.Println("UNCONFIRMED counterexample (engine and compiled program disagree):", u)
	}
	var paths int64
	for _, r := range c.runs {
		paths += r.paths
	}
	if code == 0 && (len(unconfirmed) > 0 || len(mismatches) > 0 || paths == 0) {
		code = 2
	}
	c.writeEvidence(nviol, validated)
	reached := map[string]bool{}
	for _, r := range c.runs {
		for k := range r.covers {
			reached[k] = true
		}
	}
	if *harnFlag == "" {
		for k := range c.covers {
			if !reached[k] {
				fmt.Println("NOT-REACHED cover point:", k)
			}
		}
	}
	fmt.Printf("%s %s: exit %d, %.1fs\n", c.prop, c.tier, code, time.Since(c.t0).Seconds())
	return code
}

func fmtInputs(m map[string]any) string {
	var l []string
	for _, k := range sortedKeys(m) {
		switch v := m[k].(type) {
		case string:
			l = append(l, fmt.Sprintf("%s=%q", k, v))
		default:
			l = append(l, fmt.Sprintf("%s=%v", k, v))
		}
	}
	return "{" + strings.Join(l, " ") + "}"
}

func (c *checker) writeReplay(v Violation, how string) string {
	dir := filepath.Join(*verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", c.prop, v.Harness, regexp.MustCompile(`[^\w.-]+`).ReplaceAllString(v.ID, "_")))
	b, _ := json.MarshalIndent([]map[string]any{{"harness": v.Harness, "inputs": v.Inputs, "params": v.Param, "runs": 300, "id": v.ID, "message": v.Msg, "observed": how}}, "", " ")
	os.WriteFile(f, b, 0o644)
	return f
}

// validate replays a sample of passing paths natively and compares the
// recorded observations.
func (c *checker) validate() (int, []Violation, []string) {
	var items []replayItem
	for _, r := range c.runs {
		for _, s := range r.samples {
			if s.Inputs == nil {
				continue
			}
			items = append(items, replayItem{r.harness, s.Inputs, r.params, 3, "", s.Obs})
		}
	}
	if len(items) == 0 {
		return 0, nil, nil
	}
	bin, err := c.buildReplay(false)
	if err != nil {
		return 0, nil, []string{err.Error()}
	}
	f := c.specFile("samples.json", items)
	rs, stderr, to, err := c.runReplay(bin, f, 60*time.Second)
	var mm []string
	if to || err != nil || len(rs) != len(items) {
		return len(rs), nil, []string{fmt.Sprintf("sample replay: %d of %d results, timeout %v, %v %s", len(rs), len(items), to, err, tail(stderr, 2000))}
	}
	var vv []Violation
	for i, r := range rs {
		if r.Status == "assert" || r.Status == "panic" {
			it := items[i]
			vv = append(vv, Violation{Harness: it.Harness, ID: r.ID, Kind: r.Status, Msg: r.Msg, Inputs: it.Inputs, Param: it.Params})
			continue
		}
		if r.Status != "ok" || fmt.Sprint(r.Obs) != fmt.Sprint(items[i].Obs) {
			mm = append(mm, fmt.Sprintf("%s on %s: compiled %s %s %s %v, engine ok %v", items[i].Harness, fmtInputs(items[i].Inputs), r.Status, r.ID, r.Msg, r.Obs, items[i].Obs))
		}
	}
	return len(rs), vv, mm
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (c *checker) writeEvidence(nviol, validated int) {
	var states, steps, queries, sats, unsats, unks, obl, oblq, inf, unsupp, forks, hits int64
	var sd float64
	fnHit := map[int]int64{}
	blkHit := map[int]bool{}
	var cfgs []any
	var samples []any
	exhaustive := true
	for i, r := range c.runs {
		states += r.paths
		steps += r.steps
		queries += r.queries
		hits += r.cacheHits
		sats += r.sats
		unsats += r.unsats
		unks += r.unknowns
		obl += r.asserts
		oblq += r.assertQ
		inf += r.infeasible
		unsupp += r.unsupp
		forks += r.forks
		sd += r.solverDur.Seconds()
		if r.timedOut || r.unsupp > 0 || r.unknowns > 0 {
			exhaustive = false
		}
		for k, v := range r.fnHit {
			fnHit[k] += v
		}
		for k := range r.blkHit {
			blkHit[k] = true
		}
		cov := map[string]int{}
		for k, v := range r.covers {
			cov[k] = v
		}
		cfgs = append(cfgs, map[string]any{"harness": r.harness, "bounds": r.params, "map_order": r.mapMode, "paths": r.paths, "infeasible": r.infeasible,
			"obligations": r.asserts, "solver_decided_obligations": r.assertQ, "queries": r.queries, "solver_s": r.solverDur.Seconds(), "max_query_s": r.solverMax.Seconds(),
			"wall_s": r.wall.Seconds(), "cut_by_deadline": r.timedOut, "outside_fragment": r.unsuppMsgs, "unknown": r.unknowns, "cover_points": cov, "longest_path_decisions": r.maxPathDec})
		for j, s := range r.samples {
			if j >= 2 || (i > 3 && j >= 1) {
				break
			}
			samples = append(samples, map[string]any{"harness": r.harness, "inputs": s.Inputs, "path_condition_conjuncts": s.Pc, "observed": s.Obs})
		}
	}
	var fns []string
	tb, hb := 0, 0
	for _, f := range c.eng.allFuncs {
		if !f.inRepo || fnHit[f.id] == 0 {
			continue
		}
		fns = append(fns, strings.ReplaceAll(f.name, repoPath, "lpg"))
		for _, b := range f.blocks {
			tb++
			if blkHit[b.gid] {
				hb++
			}
		}
	}
	sort.Strings(fns)
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"wall_s": time.Since(c.t0).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"states": states, "transitions": forks + states, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":                "states = complete symbolic paths of the real code, each standing for every input that satisfies its path condition; transitions = case splits decided by the solver plus path ends; traces_validated = passing paths replayed on the compiled program with equal observations",
			"exhaustive":                 exhaustive,
			"instructions_executed":      steps,
			"infeasible_paths":           inf,
			"paths_outside_fragment":     unsupp,
			"proof_obligations":          obl,
			"obligations_sent_to_solver": oblq,
			"solver_queries":             map[string]any{"total": queries, "sat": sats, "unsat": unsats, "unknown": unks, "answered_from_cache_of_equal_queries": hits, "seconds": sd, "solver": *solverF},
			"functions_encoded":          fns,
			"blocks_of_those_functions":  map[string]int{"total": tb, "reached": hb},
			"configurations":             cfgs,
			"encoding":                   "go/ssa built from /repo's working tree on this run; load and build took " + fmt.Sprintf("%.1fs", c.loadDur.Seconds()),
		},
		"assumptions": []string{
			"bounds listed per configuration; symbolic strings are printable ASCII of the stated length",
			"map iteration order: the order in which keys were first used or its reverse, or alternating between the two, chosen symbolically (perm: every order of maps of up to 3 entries)",
			"go/ssa (x/tools) and the engine's semantics of Go, checked by replay on the compiled program; models of fmt, sort, strings.Builder and encoding/json",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verifDir, "evidence", c.prop+".json"), b, 0o644)
}

// ---- known findings ----

type knownSet struct{ items []knownItem }
type knownItem struct{ harness, id, what string }

// Lines: "known: property=<id> harness=<name> assert=<id> <what fails>"
func loadKnown(file, prop string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(file)
	if err != nil {
		return k
	}
	rx := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) assert=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := rx.FindStringSubmatch(l); m != nil && m[1] == prop {
			k.items = append(k.items, knownItem{m[2], m[3], m[4]})
		}
	}
	return k
}

func (k *knownSet) match(v Violation) string {
	for _, i := range k.items {
		if i.harness == v.Harness && i.id == v.ID {
			return i.what
		}
	}
	return ""
}
