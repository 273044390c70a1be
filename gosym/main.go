package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// JobSpec is one entry of checks.json: a harness function and the shard
// values it is run with (a number n stands for 0..n-1, a list for itself).
type JobSpec struct {
	Fn       string                     `json:"fn"`
	Tier     string                     `json:"tier"` // quick, thorough or both
	Shards   map[string]json.RawMessage `json:"shards"`
	Thorough map[string]json.RawMessage `json:"thorough"` // replaces entries of shards in the thorough tier
	MaxInstr int64                      `json:"max_instr"`
	MaxLoop  int                        `json:"max_loop"`
	MaxDepth int                        `json:"max_depth"`
	MaxConc  int                        `json:"max_conc"`
	MaxPaths int                        `json:"max_paths"`
	MapPerm  bool                       `json:"map_perm"`
	TermLim  bool                       `json:"termination"`
	Hard     bool                       `json:"hard"`
	Bounds   string                     `json:"bounds"`
}

type PropSpec struct {
	Level       string    `json:"level"`
	Jobs        []JobSpec `json:"jobs"`
	Assumptions []string  `json:"assumptions"`
	Outside     string    `json:"outside"`
}

type job struct {
	spec   *JobSpec
	shards map[string]int
	eng    *Engine
	dur    time.Duration
	fault  string
	ran    bool
}

func (j *job) name() string {
	var ks []string
	for k := range j.shards {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := j.spec.Fn
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, j.shards[k])
	}
	return s
}

func expand(spec *JobSpec, tier string) ([]map[string]int, error) {
	res := []map[string]int{{}}
	names := map[string]json.RawMessage{}
	for k, v := range spec.Shards {
		names[k] = v
	}
	if tier == "thorough" {
		for k, v := range spec.Thorough {
			names[k] = v
		}
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var vals []int
		var n int
		if err := json.Unmarshal(names[k], &n); err == nil {
			for i := 0; i < n; i++ {
				vals = append(vals, i)
			}
		} else if err := json.Unmarshal(names[k], &vals); err != nil {
			return nil, fmt.Errorf("shard %s: %v", k, err)
		}
		var nx []map[string]int
		for _, r := range res {
			for _, v := range vals {
				c := map[string]int{k: v}
				for a, b := range r {
					c[a] = b
				}
				nx = append(nx, c)
			}
		}
		res = nx
	}
	return res, nil
}

func loadProgram(dir string) (*ssa.Program, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false,
		Env: append(os.Environ(), "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, "./props", "./models")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, nil, errors.New(strings.Join(errs, "\n"))
	}
	prog, pk := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	for _, p := range pk {
		if p != nil && strings.HasSuffix(p.Pkg.Path(), "/props") {
			return prog, p, nil
		}
	}
	return nil, nil, errors.New("no props package")
}

func (j *job) run(prog *ssa.Program, pk *ssa.Package, deadline time.Time, verbose bool, stop *atomic.Bool, onViol func(Violation)) {
	t0 := time.Now()
	j.ran = true
	o := Opts{MaxInstr: 3_000_000, MaxDepth: 400, MaxLoop: 400, MaxConc: 260, MaxViol: 8,
		Deadline: deadline, HardTimeout: 120 * time.Second, Verbose: verbose, Shards: j.shards,
		MapPerm: j.spec.MapPerm, TermLimit: j.spec.TermLim, Hard: j.spec.Hard, MaxPaths: j.spec.MaxPaths, Stop: stop, OnViol: onViol}
	if j.spec.MaxInstr > 0 {
		o.MaxInstr = j.spec.MaxInstr
	}
	if j.spec.MaxLoop > 0 {
		o.MaxLoop = j.spec.MaxLoop
	}
	if j.spec.MaxDepth > 0 {
		o.MaxDepth = j.spec.MaxDepth
	}
	if j.spec.MaxConc > 0 {
		o.MaxConc = j.spec.MaxConc
	}
	e := NewEngine(prog, o)
	j.eng = e
	e.harness = j.spec.Fn
	defer func() {
		if r := recover(); r != nil {
			j.fault = fmt.Sprintf("engine fault: %v", r)
			if verbose {
				fmt.Fprintf(os.Stderr, "%s: %s\n%s\n", j.name(), j.fault, debug.Stack())
			}
		}
		e.s.Close()
		j.dur = time.Since(t0)
	}()
	fn := pk.Func(j.spec.Fn)
	if fn == nil {
		panic("no harness function " + j.spec.Fn)
	}
	st := &State{own: &owner{}}
	fr := e.push(st, pk.Func("init"), nil, nil, -1, false)
	fr.onRet = func(e *Engine, st *State, _ Value) {
		st.instrs = 0
		e.push(st, fn, nil, nil, -1, false)
	}
	e.runAll(st)
}

// watchMemory gives up the biggest job when memory gets short
func watchMemory(mu *sync.Mutex, running map[*job]bool) {
	debug.SetMemoryLimit(16 << 30)
	for {
		time.Sleep(300 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc < 17<<30 {
			continue
		}
		mu.Lock()
		var big *job
		for j := range running {
			if j.eng != nil && (big == nil || j.eng.weight.Load() > big.eng.weight.Load()) {
				big = j
			}
		}
		if big != nil {
			big.eng.heavy.Store(true)
		}
		mu.Unlock()
		time.Sleep(3 * time.Second)
	}
}

// ---- labels a harness must reach

func labelsOf(pk *ssa.Package, fns []string) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.String() == symPath+".Reach" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
						labels[constant.StringVal(k.Value)] = true
					}
					continue
				}
				if g.Pkg == pk {
					walk(g)
				}
			}
		}
	}
	for _, n := range fns {
		walk(pk.Func(n))
	}
	var r []string
	for l := range labels {
		r = append(r, l)
	}
	sort.Strings(r)
	return r
}

// ---- native replay

type replayCase struct {
	Harness string            `json:"harness"`
	Shards  map[string]int    `json:"shards"`
	Values  map[string]uint64 `json:"values"`
	Runs    int               `json:"runs"`
	Observe bool              `json:"observe"`
}

type replayer struct {
	dir, tmp  string
	bins      map[bool]string
	buildErr  error
	mu        sync.Mutex
	buildTime time.Duration
}

func (r *replayer) bin(race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.bins[race]; ok {
		return b, nil
	}
	t0 := time.Now()
	out := filepath.Join(r.tmp, fmt.Sprintf("replay-%v", race))
	args := []string{"build", "-o", out}
	env := os.Environ()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./cmd/replay")
	c := exec.Command("go", args...)
	c.Dir = r.dir
	c.Env = env
	o, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, o)
	}
	r.bins[race] = out
	r.buildTime += time.Since(t0)
	return out, nil
}

type outcomeN struct {
	exit    int
	timeout bool
	out     string
}

func (r *replayer) exec(race bool, cs any, timeout time.Duration) (outcomeN, error) {
	b, err := r.bin(race)
	if err != nil {
		return outcomeN{}, err
	}
	js, _ := json.Marshal(cs)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	sh := "ulimit -v 6000000; exec " + b
	if race {
		sh = "exec " + b // the race runtime reserves a lot of address space
	}
	c := exec.CommandContext(ctx, "/bin/sh", "-c", sh)
	c.Env = append(os.Environ(), "GORACE=exitcode=66", "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
	c.Dir = r.tmp
	c.Stdin = bytes.NewReader(js)
	var buf bytes.Buffer
	c.Stdout = &buf
	c.Stderr = &buf
	err = c.Run()
	res := outcomeN{out: buf.String()}
	if ctx.Err() != nil {
		res.timeout = true
		return res, nil
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			return res, err
		}
		res.exit = ee.ExitCode()
	}
	return res, nil
}

// reproduce runs a counterexample on the real code
func (r *replayer) reproduce(v Violation) (bool, string) {
	race := v.Kind == "write"
	runs := 1
	if v.ordered() {
		runs = 400
	}
	to := 60 * time.Second
	if v.Kind == "nontermination" {
		to = 15 * time.Second
	}
	res, err := r.exec(race, []replayCase{{Harness: v.Harness, Shards: v.Shards, Values: v.Values, Runs: runs}}, to)
	if err != nil {
		return false, err.Error()
	}
	txt := res.out
	if len(txt) > 4000 {
		txt = txt[:4000]
	}
	if res.timeout {
		return v.Kind == "nontermination", "timed out\n" + txt
	}
	switch res.exit {
	case 1, 66:
		return true, txt
	case 2:
		return true, txt
	}
	return false, fmt.Sprintf("exit %d\n%s", res.exit, txt)
}

func (v Violation) ordered() bool {
	for k := range v.Values {
		if strings.HasPrefix(k, "~order") {
			return true
		}
	}
	return false
}

// ---- main

func main() {
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		hdir     = flag.String("harness", "/verif/harness", "harness module")
		conf     = flag.String("config", "/verif/checks.json", "job list")
		evid     = flag.String("evidence", "", "evidence file")
		repl     = flag.String("replays", "/verif/evidence/replay", "where counterexamples go")
		known    = flag.String("known", "/verif/known_findings.txt", "known findings")
		only     = flag.String("only", "", "run only jobs whose name contains this")
		fn       = flag.String("fn", "", "run this single harness (with -shard)")
		shardF   = flag.String("shard", "", "k=v,k=v for -fn")
		verbose  = flag.Bool("v", false, "verbose")
		budget   = flag.Duration("budget", 13*time.Minute, "wall-clock budget")
		workers  = flag.Int("j", 8, "parallel jobs")
		replayF  = flag.String("replay", "", "replay a counterexample file natively")
		nosave   = flag.Bool("n", false, "do not write evidence")
		validate = flag.Int("validate", 3, "sampled paths per job to run natively")
		mi       = flag.Int64("max_instr", 0, "for -fn")
		ml       = flag.Int("max_loop", 0, "for -fn")
		md       = flag.Int("max_depth", 0, "for -fn")
		tl       = flag.Bool("termination", false, "for -fn")
		mp       = flag.Bool("map_perm", false, "for -fn")
	)
	flag.Parse()
	debug.SetGCPercent(200)
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	code := 0
	defer func() { os.RemoveAll(tmp); os.Exit(code) }()
	rp := &replayer{dir: *hdir, tmp: tmp, bins: map[bool]string{}}

	if *replayF != "" {
		b, err := os.ReadFile(*replayF)
		if err != nil {
			fatal(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal(err)
		}
		ok, out := rp.reproduce(v)
		fmt.Printf("%s %v: %s\nreproduced: %v\n%s\n", v.Harness, v.Shards, v.Msg, ok, out)
		if ok {
			code = 1
		}
		return
	}

	var spec PropSpec
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if *fn != "" {
		js := JobSpec{Fn: *fn, Shards: map[string]json.RawMessage{}, MaxInstr: *mi, MaxLoop: *ml, MaxDepth: *md, TermLim: *tl, MapPerm: *mp}
		for _, kv := range strings.Split(*shardF, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				if strings.HasPrefix(v, "n") {
					js.Shards[k] = json.RawMessage(v[1:])
				} else {
					js.Shards[k] = json.RawMessage("[" + strings.ReplaceAll(v, "+", ",") + "]")
				}
			}
		}
		spec = PropSpec{Level: "other", Jobs: []JobSpec{js}}
		*nosave = true
	} else {
		b, err := os.ReadFile(*conf)
		if err != nil {
			fatal(err)
		}
		all := map[string]PropSpec{}
		if err := json.Unmarshal(b, &all); err != nil {
			fatal(err)
		}
		var ok bool
		if spec, ok = all[*prop]; !ok {
			fatal(fmt.Errorf("no checks for %q", *prop))
		}
	}

	prog, pk, err := loadProgram(*hdir)
	if err != nil {
		fatal(err)
	}
	loadT := time.Since(t0)

	var jobs []*job
	for i := range spec.Jobs {
		js := &spec.Jobs[i]
		if js.Tier == "quick" && *tier != "quick" || js.Tier == "thorough" && *tier != "thorough" {
			continue
		}
		sh, err := expand(js, *tier)
		if err != nil {
			fatal(err)
		}
		for _, s := range sh {
			j := &job{spec: js, shards: s}
			if *only != "" && !strings.Contains(j.name(), *only) {
				continue
			}
			jobs = append(jobs, j)
		}
	}

	deadline := t0.Add(*budget)
	kf := loadKnown(*known, *prop)
	var mu sync.Mutex
	var confirmed []Violation
	var unrepro []string
	knownHit := map[string]bool{}
	nviol := 0
	var stop atomic.Bool
	todo := make(chan *job)
	var wg sync.WaitGroup
	os.MkdirAll(*repl, 0o755)
	// report runs a counterexample on the real code and reports it if it is one
	report := func(j *job, v Violation) {
		ok, out := rp.reproduce(v)
		mu.Lock()
		defer mu.Unlock()
		nviol++
		if !ok {
			unrepro = append(unrepro, fmt.Sprintf("%s: %s: %s %v (native: %s)", j.name(), v.Kind, v.Msg, v.Values, firstLine(out)))
			return
		}
		if k := kf.match(v, out); k != "" {
			if !knownHit[k] {
				knownHit[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			}
			return
		}
		v.Detail = append(v.Detail, "native: "+out)
		confirmed = append(confirmed, v)
		path := filepath.Join(*repl, fmt.Sprintf("%s-%d.json", orStr(*prop, "adhoc"), len(confirmed)))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		if len(confirmed) <= 5 {
			fmt.Printf("counterexample: %s %v %s: %s\n  %v\n  native: %s\n", v.Harness, v.Shards, v.Kind, v.Msg, v.short(), strings.ReplaceAll(strings.TrimSpace(out), "\n", "\n          "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", orStr(*prop, "adhoc"), path)
		}
		stop.Store(true)
	}
	running := map[*job]bool{}
	go watchMemory(&mu, running)
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range todo {
				if stop.Load() {
					continue
				}
				j := j
				mu.Lock()
				running[j] = true
				mu.Unlock()
				j.run(prog, pk, deadline, *verbose, &stop, func(v Violation) { report(j, v) })
				mu.Lock()
				delete(running, j)
				mu.Unlock()
				if *verbose || *fn != "" {
					fmt.Fprintf(os.Stderr, "done %-50s %6.1fs paths=%d merges=%d asserts=%d q=%d solver=%.1fs viol=%d inc=%v maxinstr=%d %s\n", j.name(), j.dur.Seconds(),
						j.eng.stats.Paths, j.eng.stats.Merges, j.eng.stats.Asserts, j.eng.s.Stats.Queries, j.eng.s.Stats.Time.Seconds(), len(j.eng.viol), j.eng.stats.Incomplete, j.eng.stats.MaxInstrs, j.fault)
				}
			}
		}()
	}
	for _, j := range jobs {
		todo <- j
	}
	close(todo)
	// should a job not notice the end of the time budget
	wd := time.AfterFunc(time.Until(deadline)+45*time.Second, func() {
		mu.Lock()
		for j := range running {
			fmt.Println("INCOMPLETE:", j.name()+": stuck at the end of the time budget")
		}
		if len(confirmed) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	})
	wg.Wait()
	wd.Stop()

	// run sampled paths natively and compare what the encoder predicted
	nval, mismatch := 0, []string{}
	if !stop.Load() && *validate > 0 {
		nval, mismatch = crossCheck(rp, jobs, *validate)
	}
	ev := evidence(*prop, *tier, seed, &spec, jobs, pk, t0, loadT, nval, mismatch, unrepro, len(confirmed))
	if !*nosave {
		out := *evid
		if out == "" {
			out = "/verif/evidence/" + *prop + ".json"
		}
		os.MkdirAll(filepath.Dir(out), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
			fatal(err)
		}
	} else if *verbose {
		b, _ := json.MarshalIndent(ev["coverage"], "", " ")
		fmt.Fprintln(os.Stderr, string(b))
	}
	cov := ev["coverage"].(map[string]any)
	fmt.Printf("property=%s tier=%s jobs=%d paths=%v merges=%v assertions=%v queries=%v solver=%.1fs validated=%d incomplete=%d wall=%.1fs\n",
		orStr(*prop, "adhoc"), *tier, len(jobs), cov["paths"], cov["merged_states"], cov["assertions"], cov["queries"], cov["solver_s"], nval, len(cov["incomplete"].([]string)), time.Since(t0).Seconds())
	for _, s := range cov["incomplete"].([]string) {
		fmt.Println("INCOMPLETE:", s)
	}
	for _, s := range cov["unreached"].([]string) {
		fmt.Println("UNREACHED:", s)
	}
	if len(confirmed) > 0 {
		code = 1
	}
}

func (v Violation) short() string {
	var sb strings.Builder
	for i, k := range v.Order {
		if i == 60 {
			sb.WriteString("…")
			break
		}
		x := v.Values[k]
		if x >= 33 && x < 127 {
			fmt.Fprintf(&sb, "%s=%d(%q) ", k, x, rune(x))
		} else {
			fmt.Fprintf(&sb, "%s=%d ", k, x)
		}
	}
	return sb.String()
}

func orStr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		if j := strings.IndexByte(s[i+1:], '\n'); j >= 0 {
			return s[:i+1+j]
		}
	}
	return s
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gosym:", err)
	os.Exit(3)
}

// ---- known findings: lines "known: property=<id> match=<text> | <what fails>"

type knownT []struct{ match, what string }

func loadKnown(path, prop string) knownT {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r knownT
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + prop + " match="
		if !strings.HasPrefix(l, p) {
			continue
		}
		m, w, ok := strings.Cut(l[len(p):], " | ")
		if ok {
			r = append(r, struct{ match, what string }{m, w})
		}
	}
	return r
}

func (k knownT) match(v Violation, out string) string {
	for _, x := range k {
		if strings.Contains(v.Msg+"\n"+out, x.match) {
			return x.what
		}
	}
	return ""
}

// ---- validation of the encoding against native runs

func crossCheck(rp *replayer, jobs []*job, per int) (int, []string) {
	type exp struct {
		j *job
		s pathSample
	}
	var all []exp
	var cases []replayCase
	for _, j := range jobs {
		if j.eng == nil {
			continue
		}
		for i, s := range j.eng.psamples {
			if i >= per {
				break
			}
			all = append(all, exp{j, s})
			cases = append(cases, replayCase{Harness: j.spec.Fn, Shards: j.shards, Values: s.values, Runs: 1, Observe: true})
		}
	}
	if len(cases) == 0 {
		return 0, nil
	}
	res, err := rp.exec(false, cases, 120*time.Second)
	if err != nil {
		return 0, []string{"native validation did not run: " + err.Error()}
	}
	// one block per case, ended by "== n"
	blocks := strings.Split(res.out, "\n== ")
	n := 0
	var mm []string
	for i, x := range all {
		if i >= len(blocks) || (i == len(blocks)-1) {
			mm = append(mm, fmt.Sprintf("native validation stopped at case %d (%s, exit %d, timeout %v): %s", i, x.j.name(), res.exit, res.timeout, firstLine(blocks[len(blocks)-1])))
			break
		}
		bl := blocks[i]
		if i > 0 { // drop the case number that ends the previous block
			if k := strings.IndexByte(bl, '\n'); k >= 0 {
				bl = bl[k+1:]
			} else {
				bl = ""
			}
		}
		got := obsLines(bl)
		want := x.s.obs
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			mm = append(mm, fmt.Sprintf("%s %v: encoded %q, native %q", x.j.name(), x.s.values, want, got))
			continue
		}
		n++
	}
	return n, mm
}

func obsLines(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "obs ") || strings.HasPrefix(l, "REPLAY-FAILED") || strings.HasPrefix(l, "ASSUME") || strings.HasPrefix(l, "PANIC") {
			r = append(r, l)
		}
	}
	return r
}

// ---- evidence

func evidence(prop, tier string, seed int, spec *PropSpec, jobs []*job, pk *ssa.Package, t0 time.Time, loadT time.Duration, nval int, mismatch, unrepro []string, viol int) map[string]any {
	var paths, merges, forks, pruned, asserts, triv, aq, killed, synt, dom int
	var q, sat, uns, unk, oneshot int
	var solver, maxq time.Duration
	var instrs int64
	inc := map[string]int{}
	reached := map[string]bool{}
	type cov struct {
		hit, all int
		steps    int64
		blocks   []bool
	}
	fns := map[string]*cov{}
	var samples []string
	var fnNames []string
	nran := 0
	bounds := []string{}
	seenB := map[string]bool{}
	slow := []string{}
	models := map[string]bool{}
	for _, j := range jobs {
		if b := j.spec.Fn + ": " + j.spec.Bounds; !seenB[b] {
			seenB[b] = true
			fnNames = append(fnNames, j.spec.Fn)
			sh := ""
			n := map[string]map[int]bool{}
			for _, k := range jobs {
				if k.spec == j.spec {
					for a, v := range k.shards {
						if n[a] == nil {
							n[a] = map[int]bool{}
						}
						n[a][v] = true
					}
				}
			}
			var ks []string
			for k := range n {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				var vs []int
				for v := range n[k] {
					vs = append(vs, v)
				}
				sort.Ints(vs)
				sh += fmt.Sprintf(" %s∈%v", k, vs)
			}
			bounds = append(bounds, b+" [cases:"+sh+"; ≤"+fmt.Sprint(j.limits())+"]")
		}
		e := j.eng
		if e == nil {
			if !j.ran {
				inc["not run"]++
			}
			continue
		}
		nran++
		if j.fault != "" {
			inc[j.name()+": "+firstLine(j.fault)]++
		}
		s := e.stats
		paths += s.Paths
		merges += s.Merges
		forks += s.Forks
		pruned += s.Pruned
		asserts += s.Asserts
		triv += s.AssertsTriv
		aq += s.AssertQ
		killed += s.Killed
		synt += s.Syntactic
		dom += s.DomainFork
		instrs += s.Instrs
		q += e.s.Stats.Queries
		sat += e.s.Stats.SatN
		uns += e.s.Stats.UnsatN
		unk += e.s.Stats.UnknownN
		oneshot += e.s.Stats.OneShot
		solver += e.s.Stats.Time
		if e.s.Stats.MaxTime > maxq {
			maxq = e.s.Stats.MaxTime
		}
		for k, n := range s.Incomplete {
			inc[j.name()+": "+k] += n
		}
		for l := range e.reached {
			reached[l] = true
		}
		if len(samples) < 12 && len(e.samples) > 0 {
			samples = append(samples, e.samples[0])
			if len(e.samples) > 2 && len(jobs) < 4 {
				samples = append(samples, e.samples[1:]...)
			}
		}
		for _, fi := range e.fis {
			if fi.intr != nil || fi.repl != nil {
				if fi.used {
					models[fnName(fi.fn)] = true
				}
				continue
			}
			if fi.repo && fi.steps > 0 {
				c := fns[fi.name]
				if c == nil {
					c = &cov{all: len(fi.cov), blocks: make([]bool, len(fi.cov))}
					fns[fi.name] = c
				}
				c.steps += fi.steps
				for i, b := range fi.cov {
					c.blocks[i] = c.blocks[i] || b
				}
			}
		}
		if j.dur > 5*time.Second {
			slow = append(slow, fmt.Sprintf("%s %.0fs", j.name(), j.dur.Seconds()))
		}
	}
	var enc []string
	for n, c := range fns {
		for _, b := range c.blocks {
			if b {
				c.hit++
			}
		}
		enc = append(enc, fmt.Sprintf("%s (%d/%d blocks, %d instructions)", strings.ReplaceAll(n, repoPath+"/pkg/", ""), c.hit, c.all, c.steps))
	}
	sort.Strings(enc)
	incs := []string{}
	for k, n := range inc {
		incs = append(incs, fmt.Sprintf("%s (×%d)", k, n))
	}
	incs = append(incs, unrepro...)
	for _, m := range mismatch {
		incs = append(incs, "encoding differs from native run: "+m)
	}
	sort.Strings(incs)
	unre := []string{}
	if viol == 0 {
		for _, l := range labelsOf(pk, fnNames) {
			if !reached[l] {
				unre = append(unre, l)
			}
		}
	}
	var mods []string
	for m := range models {
		mods = append(mods, m)
	}
	sort.Strings(mods)
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	var rl []string
	for l := range reached {
		rl = append(rl, l)
	}
	sort.Strings(rl)
	c := map[string]any{
		"states":                               paths + merges,
		"transitions":                          int(instrs),
		"traces_validated_against_impl":        nval,
		"samples":                              samples,
		"exhaustive":                           len(incs) == 0 && viol == 0,
		"explanation":                          "symbolic execution of the repository's SSA (regenerated from the working tree on this run) with every assertion decided by an SMT solver for all values within the bounds; paths are joined at control-flow merges inside sym.Merge sections and explored one by one elsewhere",
		"functions_encoded":                    enc,
		"library_models":                       mods,
		"bounds":                               bounds,
		"jobs":                                 len(jobs),
		"jobs_run":                             nran,
		"paths":                                paths,
		"merged_states":                        merges,
		"forks":                                forks,
		"branches_pruned_infeasible":           pruned,
		"branches_decided_by_domain":           synt + dom,
		"assertions":                           asserts,
		"assertions_decided_by_solver":         aq,
		"assertions_decided_by_path_condition": triv,
		"queries":                              q,
		"queries_sat":                          sat,
		"queries_unsat":                        uns,
		"queries_unknown":                      unk,
		"queries_retried_fresh":                oneshot,
		"solver_s":                             round(solver.Seconds()),
		"solver_longest_query_s":               round(maxq.Seconds()),
		"load_s":                               round(loadT.Seconds()),
		"reached":                              rl,
		"unreached":                            unre,
		"incomplete":                           incs,
		"slow_jobs":                            slow,
		"outside":                              spec.Outside,
	}
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": spec.Level,
		"coverage": c, "assumptions": spec.Assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": viol,
	}
}

func (j *job) limits() string {
	if j.eng == nil {
		return ""
	}
	o := j.eng.opts
	return fmt.Sprintf("%d instructions per path, loop %d in merged sections, call depth %d", o.MaxInstr, o.MaxLoop, o.MaxDepth)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
