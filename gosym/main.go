package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Job struct {
	h     *Harness
	shard map[string]int
	label string
	eng   *Eng
	secs  float64
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// repoDir is the tree under test. VERIF_REPO is for development (trying planted bugs on a
// copy); the registered commands do not set it.
var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// overlayFiles maps virtual paths in /repo to the harness files of the given groups.
func overlayFiles(groups []string) (map[string]string, []string, error) {
	files := map[string]string{}
	var pats []string
	add := func(dir, virt string) error {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, f := range ents {
			if strings.HasSuffix(f.Name(), ".go") {
				files[filepath.Join(virt, f.Name())] = filepath.Join(dir, f.Name())
			}
		}
		return nil
	}
	hd := filepath.Join(verifDir(), "harness")
	if err := add(filepath.Join(hd, "vrt"), filepath.Join(repoDir, "zzverif/vrt")); err != nil {
		return nil, nil, err
	}
	libs, _ := filepath.Glob(filepath.Join(hd, "lib*"))
	for _, l := range libs {
		add(l, filepath.Join(repoDir, "zzverif", filepath.Base(l)))
	}
	for _, g := range groups {
		// in-package groups carry a file naming their directory in the repository
		if b, err := os.ReadFile(filepath.Join(hd, g, "PACKAGE_DIR")); err == nil {
			d := strings.TrimSpace(string(b))
			if err := add(filepath.Join(hd, g), filepath.Join(repoDir, d)); err != nil {
				return nil, nil, err
			}
			pats = append(pats, "./"+d)
			continue
		}
		if err := add(filepath.Join(hd, g), filepath.Join(repoDir, "zzverif", g)); err != nil {
			return nil, nil, err
		}
		pats = append(pats, "./zzverif/"+g)
	}
	return files, pats, nil
}

type cfgT struct {
	tmp     string
	modfile string
	tier    string
	seed    int
	workers int
	debug   bool
	maxt    int
}

func (c *cfgT) prep() error {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return err
	}
	c.tmp = d
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d, f), b, 0644); err != nil {
			return err
		}
	}
	c.modfile = filepath.Join(d, "go.mod")
	os.Setenv("GOFLAGS", "-mod=mod -modfile="+c.modfile)
	return nil
}

func (c *cfgT) load(groups []string) (*Prog, map[string]string, error) {
	files, pats, err := overlayFiles(groups)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for v, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[v] = b
	}
	p, err := Load(repoDir, ov, pats)
	if err != nil {
		return nil, files, err
	}
	if c.tier == "thorough" {
		p.tier = 1
	}
	return p, files, nil
}

func (c *cfgT) jobs(p *Prog, hs []*Harness) []*Job {
	var js []*Job
	for _, h := range hs {
		if h.Tier == "thorough" && c.tier != "thorough" {
			continue
		}
		if h.Shard == "" {
			js = append(js, &Job{h: h, label: h.Name})
			continue
		}
		hi := h.SHi
		if c.tier == "thorough" {
			hi = h.SHiT
		}
		for i := h.SLo; i <= hi; i++ {
			js = append(js, &Job{h: h, shard: map[string]int{h.Shard + "#0": i}, label: fmt.Sprintf("%s[%s=%d]", h.Name, h.Shard, i)})
		}
	}
	return js
}

var quickEnd = time.Now().Add(720 * time.Second)

func (c *cfgT) runJobs(p *Prog, js []*Job) {
	sem := make(chan bool, c.workers)
	var wg sync.WaitGroup
	for _, j := range js {
		j := j
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			e := NewEng(p, j.h.Name)
			e.shard = j.shard
			e.debug = c.debug
			lim := j.h.Time
			if c.tier == "thorough" {
				lim = j.h.TimeT
				e.sol.zcap = 20 * time.Second
			}
			if c.maxt > 0 && lim > c.maxt {
				lim = c.maxt
			}
			d := time.Duration(lim) * time.Second
			if c.tier != "thorough" {
				// a quick run ends in time whatever the code under test looks like, and
				// later jobs get their share
				if rest := time.Until(quickEnd) / 2; d > rest {
					d = rest
				}
			}
			e.deadline = time.Now().Add(d)
			t0 := time.Now()
			e.Run(j.h.Fn)
			j.secs = time.Since(t0).Seconds()
			j.eng = e
			// drop what is no longer needed
			e.fns, e.muxMemo, e.zeros, e.work = nil, nil, nil, nil
			e.m = nil
			e.sol.cache = nil
			e.sol.m = nil
			if c.debug {
				fmt.Fprintf(os.Stderr, "%-40s %6.1fs paths=%d instrs=%d q=%d solver=%.1fs viol=%d inc=%v states=%d\n", j.label, j.secs, e.stats.Paths, e.stats.Instrs, e.sol.stats.Queries, e.sol.stats.Seconds, len(e.viols), e.inc, e.stats.States)
			}
		}()
	}
	wg.Wait()
}

var memHigh int32 // 1 while the heap is close to the memory limit

// watchMemory makes large explorations stop (as incomplete) before memory runs out.
func watchMemory() {
	debug.SetMemoryLimit(22 << 30)
	smp := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		metrics.Read(smp)
		h := int32(0)
		if smp[0].Value.Uint64() > 20<<30 {
			h = 1
		}
		atomic.StoreInt32(&memHigh, h)
		time.Sleep(200 * time.Millisecond)
	}
}

func main() {
	var c cfgT
	var props, hname string
	var out string
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	fs.StringVar(&c.tier, "tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	fs.StringVar(&props, "prop", "", "property id")
	fs.StringVar(&hname, "h", "", "run only harnesses whose name contains this (debug)")
	fs.StringVar(&out, "out", "", "evidence file")
	fs.IntVar(&c.workers, "j", runtime.NumCPU(), "parallel jobs")
	fs.BoolVar(&c.debug, "v", false, "verbose")
	nonative := fs.Bool("nonative", false, "skip native replays")
	ff := fs.Bool("ff", false, "stop at the first violation (debug)")
	maxt := fs.Int("maxtime", 0, "limit the seconds of a job (debug)")
	fs.Parse(os.Args[1:])
	if *ff {
		graceAfter = 0
	}
	c.maxt = *maxt
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	groups := fs.Args()
	if err := c.prep(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	go watchMemory()
	code := c.check(props, hname, out, groups, t0, *nonative)
	os.RemoveAll(c.tmp)
	os.Exit(code)
}

func (c *cfgT) check(prop, hname, out string, groups []string, t0 time.Time, nonative bool) int {
	if out == "" && prop != "" {
		out = filepath.Join(verifDir(), "evidence", prop+".json")
	}
	p, files, err := c.load(groups)
	var loadNotes []string
	if err != nil && len(groups) > 1 {
		// leave out the groups that do not fit the tree
		var ok []string
		for _, g := range groups {
			if _, _, e := c.load([]string{g}); e == nil {
				ok = append(ok, g)
			} else {
				loadNotes = append(loadNotes, "harness group "+g+" could not be loaded over the current tree: "+e.Error())
			}
		}
		if len(ok) > 0 {
			p, files, err = c.load(ok)
		}
	}
	if err != nil {
		// the harness does not fit the tree (an exported interface changed) or the
		// tree does not compile: nothing was decided
		fmt.Println("INCONCLUSIVE: cannot load harness over the current tree:", err)
		c.writeEvidence(out, prop, t0, nil, nil, 0, 0, []string{"the harness could not be loaded: " + err.Error()}, nil)
		return 0
	}
	loadS := time.Since(t0).Seconds()
	var hs []*Harness
	for _, h := range p.hs {
		use := prop == ""
		for _, x := range h.Props {
			if x == prop {
				use = true
			}
		}
		if hname != "" && !strings.Contains(h.Name, hname) {
			use = false
		}
		if use {
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	js := c.jobs(p, hs)
	known := loadKnown()
	isKnown = func(v *Violation) bool { return known.match(prop, v) != "" }
	c.runJobs(p, js)
	notes := loadNotes
	// vacuity: every reach label must be reached by some complete path
	reached := map[string]bool{}
	for _, j := range js {
		for k, n := range j.eng.reached {
			if n > 0 {
				reached[j.h.Name+"/"+k] = true
			}
		}
	}
	for _, h := range hs {
		for _, r := range h.Reach {
			if !reached[h.Name+"/"+r] {
				notes = append(notes, "vacuous: "+h.Name+" never reached "+r)
			}
		}
	}
	var viols []*Violation
	vdup := map[string]int{}
	for _, j := range js {
		for _, v := range j.eng.viols {
			v.Shard = j.label
			// one counterexample per message (and, for crashes, place) is enough
			k := v.Hname + "|" + v.Kind + "|" + v.Msg
			if v.Kind == "crash" && len(v.Trace) > 0 {
				k += "|" + v.Trace[0]
			}
			if n := vdup[k]; n >= 20 {
				continue
			}
			vdup[k]++
			viols = append(viols, v)
		}
	}
	validated, disagreed := 0, 0
	var confirmed []*Violation
	if nonative {
		confirmed = viols
	} else {
		var rn []string
		confirmed, validated, disagreed, rn = c.native(p, files, js, viols)
		notes = append(notes, rn...)
	}
	var fresh []*Violation
	said := map[string]bool{}
	for _, v := range confirmed {
		if k := known.match(prop, v); k != "" {
			if !said[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
			said[k] = true
			continue
		}
		fresh = append(fresh, v)
	}
	c.writeEvidence(out, prop, t0, js, fresh, validated, disagreed, notes, hs)
	_ = loadS
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	sum := summarise(js)
	fmt.Printf("%s %s: %d harnesses, %d jobs, %d paths, %d states, %d assertions checked, %d queries (%d sat, %d unsat, %d unknown) %.1fs solver, %d native traces agree, %d incomplete, %.1fs\n",
		prop, c.tier, len(hs), len(js), sum.st.Paths, sum.st.States, sum.st.Asserts, sum.so.Queries, sum.so.Sat, sum.so.Unsat, sum.so.Unknown, sum.so.Seconds, validated, sum.st.Incomplete, time.Since(t0).Seconds())
	for k, n := range sum.inc {
		fmt.Printf("  incomplete: %s (x%d)\n", k, n)
	}
	if len(fresh) == 0 {
		return 0
	}
	shown := map[string]bool{}
	for i, v := range fresh {
		if len(shown) >= 6 || shown[v.Hname+v.Kind+v.Msg] {
			continue
		}
		shown[v.Hname+v.Kind+v.Msg] = true
		f := filepath.Join(verifDir(), "evidence", fmt.Sprintf("replay-%s-%d.json", prop, i))
		os.MkdirAll(filepath.Dir(f), 0755)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Printf("  %s: %s\n  harness %s, native replay: %s\n", v.Kind, v.Msg, v.Shard, v.Native)
		for _, t := range v.Trace {
			fmt.Println("    at", t)
		}
		if len(v.Sched) > 0 {
			fmt.Println("    schedule:", strings.Join(v.Sched, " | "))
		}
	}
	return 1
}

type summary struct {
	st    Stats
	so    SolverStats
	inc   map[string]int
	fns   map[string]int
	unmod map[string]int
	asOK  map[string]int
}

func summarise(js []*Job) *summary {
	s := &summary{inc: map[string]int{}, fns: map[string]int{}, unmod: map[string]int{}, asOK: map[string]int{}}
	for _, j := range js {
		s.st.add(&j.eng.stats)
		s.so.add(&j.eng.sol.stats)
		for k, v := range j.eng.inc {
			s.inc[k] += v
		}
		for k, v := range j.eng.funcs {
			s.fns[k] += v
		}
		for k, v := range j.eng.unmod {
			s.unmod[k] += v
		}
		for k, v := range j.eng.assertOK {
			s.asOK[k] += v
		}
	}
	return s
}

func keys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (c *cfgT) writeEvidence(out, prop string, t0 time.Time, js []*Job, fresh []*Violation, validated, disagreed int, notes []string, hs []*Harness) {
	if out == "" {
		return
	}
	s := summarise(js)
	cov := map[string]interface{}{
		"states":                        s.st.Paths + s.st.States,
		"transitions":                   s.st.Forks + s.st.Trans,
		"traces_validated_against_impl": validated,
		"symbolic_paths":                s.st.Paths,
		"paths_completed":               s.st.Done + s.st.Exits,
		"paths_cut_by_assumption":       s.st.Assumed,
		"paths_incomplete":              s.st.Incomplete,
		"explored_schedule_states":      s.st.States,
		"explored_schedule_transitions": s.st.Trans,
		"schedule_depth":                s.st.Layers,
		"ssa_instructions_executed":     s.st.Instrs,
		"assertion_evaluations":         s.st.Asserts,
		"assertions_decided_by_solver":  s.st.AssertQ,
		"assertions":                    s.asOK,
		"queries":                       map[string]interface{}{"total": s.so.Queries, "sat": s.so.Sat, "unsat": s.so.Unsat, "unknown": s.so.Unknown, "repeated": s.so.Cached, "by_cvc5": s.so.ByCvc5, "solver_seconds": s.so.Seconds, "longest_seconds": s.so.MaxSec},
		"functions_encoded":             keys(s.fns),
		"functions_modelled":            keys(s.unmod),
		"native_disagreements":          disagreed,
	}
	var hd []map[string]string
	for _, h := range hs {
		hd = append(hd, map[string]string{"name": h.Name, "bounds": strings.TrimSpace(h.Doc)})
	}
	cov["harnesses"] = hd
	var jl []map[string]interface{}
	for _, j := range js {
		jl = append(jl, map[string]interface{}{"job": j.label, "paths": j.eng.stats.Paths, "states": j.eng.stats.States, "seconds": j.secs, "incomplete": j.eng.inc})
	}
	cov["jobs"] = jl
	var smp []interface{}
	for _, j := range js {
		for i, x := range j.eng.samples {
			if i < 2 && len(smp) < 12 {
				smp = append(smp, map[string]interface{}{"job": j.label, "end": x.Kind, "inputs": clip(x.Nd), "observed": clip(x.Obs)})
			}
		}
	}
	if smp == nil {
		smp = []interface{}{map[string]interface{}{"note": "no completed path to show"}}
	}
	cov["samples"] = smp
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	inc := keys(s.inc)
	cov["not_covered_in_this_run"] = inc
	cov["exhaustive"] = len(inc) == 0 && js != nil
	ev := map[string]interface{}{
		"property": prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
		"assumptions": []string{
			"bounds are those stated per harness; nothing is claimed beyond them",
			"functions listed under functions_modelled are replaced by the models in harness/ and gosym/",
			"go/ssa's translation of the source and the SMT solvers are trusted; sampled paths are replayed natively",
		},
	}
	os.MkdirAll(filepath.Dir(out), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(out, b, 0644)
}

func clip(v []NdVal) []map[string]interface{} {
	var r []map[string]interface{}
	for i, x := range v {
		if i >= 24 {
			break
		}
		vv := x.V
		if len(vv) > 24 {
			vv = vv[:24]
		}
		r = append(r, map[string]interface{}{"name": x.Name, "v": vv, "len": len(x.V)})
	}
	return r
}

// ---------- known findings ----------

type knownT []struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	At       string `json:"at"` // the function that fails
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown() knownT {
	var k knownT
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &k)
	}
	return k
}

func (k knownT) match(prop string, v *Violation) string {
	for _, x := range k {
		if x.Status == "open" && x.Property == prop && x.Harness == v.Hname && strings.Contains(v.Kind+": "+v.Msg, x.Match) && (x.At == "" || len(v.Trace) > 0 && strings.HasPrefix(v.Trace[0], x.At+" ")) {
			return x.What
		}
	}
	return ""
}

// ---------- native replay ----------

type natCase struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Inputs  []NdVal `json:"inputs"`
	v       *Violation
	s       *Sample
}

type natObs struct {
	Name string   `json:"name"`
	V    []uint64 `json:"v"`
}

type natResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []natObs `json:"obs"`
}

// native replays counterexamples and sampled paths against the compiled code.
func (c *cfgT) native(p *Prog, files map[string]string, js []*Job, viols []*Violation) (conf []*Violation, agree, disagree int, notes []string) {
	byPkg := map[string][]*natCase{}
	for _, v := range viols {
		h := p.hs[v.Hname]
		if h.NoNat || h.Sched || v.Expl {
			v.Native = "not applicable (schedule or modelled environment): counterexample stands on the engine's concrete re-execution"
			conf = append(conf, v)
			continue
		}
		byPkg[h.Pkg] = append(byPkg[h.Pkg], &natCase{Harness: v.Hname, Tier: p.tier, Inputs: v.Nd, v: v})
	}
	for _, j := range js {
		if j.h.NoNat || j.h.Sched {
			continue
		}
		n := 0
		for i := range j.eng.samples {
			s := &j.eng.samples[i]
			if s.Kind != "done" || n >= 4 && len(js) > 4 {
				continue
			}
			n++
			byPkg[j.h.Pkg] = append(byPkg[j.h.Pkg], &natCase{Harness: j.h.Name, Tier: p.tier, Inputs: s.Nd, s: s})
		}
	}
	for pkg, cs := range byPkg {
		rs, err := c.runNative(p, files, pkg, cs)
		if err != nil {
			notes = append(notes, "native replay of "+pkg+": "+err.Error())
			fmt.Fprintln(os.Stderr, "native replay:", err)
		}
		for i, nc := range cs {
			if i >= len(rs) || rs[i] == nil {
				continue
			}
			r := rs[i]
			if nc.v != nil {
				ok := false
				switch nc.v.Kind {
				case "assert":
					// a process exit that counts as a violation ends the native run
					ok = r.Status == "fail" || r.Status == "exit" && strings.Contains(nc.v.Msg, "exits")
				case "crash":
					ok = r.Status == "panic" || r.Status == "exit" || r.Status == "fail"
				case "deadlock":
					ok = r.Status == "hang" || r.Status == "panic"
				}
				nc.v.Native = r.Status + ": " + r.Msg
				if ok {
					conf = append(conf, nc.v)
				} else {
					notes = append(notes, fmt.Sprintf("counterexample of %s (%s: %s) did not reproduce natively (%s %s): discarded", nc.Harness, nc.v.Kind, nc.v.Msg, r.Status, r.Msg))
				}
				continue
			}
			if r.Status == "done" && sameObs(nc.s.Obs, r.Obs) {
				agree++
			} else {
				disagree++
				b1, _ := json.Marshal(nc.s.Obs)
				b2, _ := json.Marshal(r.Obs)
				if len(b1) > 600 {
					b1 = b1[:600]
				}
				if len(b2) > 600 {
					b2 = b2[:600]
				}
				notes = append(notes, fmt.Sprintf("engine and native run disagree on a path of %s: native %s %s, engine obs %s native obs %s", nc.Harness, r.Status, r.Msg, b1, b2))
			}
		}
	}
	return
}

func sameObs(a []NdVal, b []natObs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || len(a[i].V) != len(b[i].V) {
			return false
		}
		for k := range a[i].V {
			if a[i].V[k] != b[i].V[k] {
				return false
			}
		}
	}
	return true
}

func (c *cfgT) runNative(p *Prog, files map[string]string, pkg string, cs []*natCase) ([]*natResult, error) {
	dir := strings.TrimPrefix(strings.TrimPrefix(pkg, repoMod), "/")
	vdir := filepath.Join(repoDir, dir)
	var names []string
	pkgName := ""
	for n, h := range p.hs {
		if h.Pkg == pkg {
			names = append(names, n)
			pkgName = h.Fn.Pkg.Pkg.Name()
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t\"%s\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tvrt.Main(map[string]func(){\n", pkgName, vrtPath)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	tag := strings.ReplaceAll(dir, "/", "_") + "_r"
	tf := filepath.Join(c.tmp, tag+"_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0644)
	ov := map[string]map[string]string{"Replace": {}}
	for v, f := range files {
		ov["Replace"][v] = f
	}
	ov["Replace"][filepath.Join(vdir, "zz_replay_test.go")] = tf
	b, _ := json.Marshal(ov)
	of := filepath.Join(c.tmp, tag+"_overlay.json")
	os.WriteFile(of, b, 0644)
	bin := filepath.Join(c.tmp, tag+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+dir)
	cmd.Dir = repoDir
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build: %v\n%s", err, o)
	}
	res := make([]*natResult, len(cs))
	start := 0
	for start < len(cs) {
		in := filepath.Join(c.tmp, tag+"_in.json")
		out := filepath.Join(c.tmp, tag+"_out.json")
		os.Remove(out)
		os.Remove(out + ".at")
		os.Remove(out + ".failed")
		j, _ := json.Marshal(cs[start:])
		os.WriteFile(in, j, 0644)
		run := exec.Command(bin, "-test.run", "TestVerifReplay", "-test.timeout", "60s")
		run.Dir = c.tmp
		run.Env = append(os.Environ(), "VERIF_REPLAY="+in, "VERIF_RESULT="+out)
		o, _ := run.CombinedOutput()
		var rs []natResult
		if b, err := os.ReadFile(out); err == nil {
			json.Unmarshal(b, &rs)
		}
		for i := range rs {
			res[start+i] = &rs[i]
		}
		if at, err := os.ReadFile(out + ".at"); err == nil {
			// the process died in this case
			k, _ := strconv.Atoi(string(at))
			st := "panic"
			msg := string(o)
			if strings.Contains(msg, "all goroutines are asleep") || strings.Contains(msg, "test timed out") {
				st = "hang"
			} else if !strings.Contains(msg, "panic:") && !strings.Contains(msg, "fatal error:") {
				st = "exit"
			}
			if i := strings.Index(msg, "panic:"); i >= 0 && st == "panic" {
				msg = msg[i:]
			}
			if len(msg) > 400 {
				msg = msg[:400]
			}
			if f, err := os.ReadFile(out + ".failed"); err == nil {
				// but not before an assertion had failed
				st, msg = "fail", string(f)+"; then: "+msg
			}
			if start+k < len(res) {
				res[start+k] = &natResult{Status: st, Msg: msg}
			}
			start += k + 1
			continue
		}
		if len(rs) == 0 {
			return res, fmt.Errorf("no result: %s", o)
		}
		break
	}
	return res, nil
}
