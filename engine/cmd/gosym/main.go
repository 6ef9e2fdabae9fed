// Command gosym decides one property by symbolic execution of the real code.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/sx"
)

type vector struct {
	Property string
	Harness  string
	Kind     string
	Msg      string
	Where    string
	Thorough bool
	Inputs   []sx.InputVal
	Schedule []string    `json:",omitempty"`
	Obs      [][2]string `json:",omitempty"`
	TZ       string      `json:",omitempty"`
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"`  // known or fixed
	Harness  string `json:"harness"` // regular expression
	Message  string `json:"message"` // regular expression on the violation text
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

var (
	root    = flag.String("root", "/verif", "verification directory")
	prop    = flag.String("prop", "", "property id")
	only    = flag.String("run", "", "regular expression selecting harnesses")
	workers = flag.Int("workers", runtime.NumCPU(), "workers")
	budget  = flag.Duration("budget", 0, "time bound of the exploration")
	verbose = flag.Bool("v", false, "print details")
	noNat   = flag.Bool("nonative", false, "skip native replay")
	cpuprof = flag.String("cpuprofile", "", "")
	samples = flag.Int("samples", 0, "path samples per harness replayed natively")
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func goEnv(extra ...string) []string {
	return append(os.Environ(), append([]string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"}, extra...)...)
}

type harnessRef struct{ pkg, name string }

// findHarnesses lists the functions of the property in the harness module.
func findHarnesses(dir, prop string) (refs []harnessRef, pkgs []string) {
	re := regexp.MustCompile(`(?m)^func (` + prop + `_[A-Za-z0-9_]+)\(\)`)
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(dir, e.Name(), "*.go"))
		sort.Strings(files)
		hit := false
		for _, f := range files {
			b, _ := os.ReadFile(f)
			for _, mm := range re.FindAllStringSubmatch(string(b), -1) {
				refs = append(refs, harnessRef{e.Name(), mm[1]})
				hit = true
			}
		}
		if hit {
			pkgs = append(pkgs, e.Name())
		}
	}
	return
}

func main() {
	flag.Parse()
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if os.Getenv("GOSYM_SLOW") != "" {
		sx.SlowLog = func(d time.Duration, cs []*sx.Term) {
			s := fmt.Sprintf("SLOW %v\n", d)
			for _, c := range cs {
				t := c.String()
				if len(t) > 600 {
					t = t[:600]
				}
				s += "   " + t + "\n"
			}
			fmt.Fprint(os.Stderr, s)
		}
	}
	rc := run()
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func run() int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	hdir := filepath.Join(*root, "harness")
	refs, pkgs := findHarnesses(hdir, *prop)
	if *only != "" {
		re := regexp.MustCompile(*only)
		var r2 []harnessRef
		for _, r := range refs {
			if re.MatchString(r.name) {
				r2 = append(r2, r)
			}
		}
		refs = r2
	}
	if len(refs) == 0 {
		fatal("no harness for %s", *prop)
	}
	work := filepath.Join(*root, ".build", *prop)
	os.RemoveAll(work)
	os.MkdirAll(work, 0o755)
	overlay, overlayFile := makeOverlay(work, hdir, refs)

	// build the replay binaries while the engine runs
	type built struct {
		path string
		err  error
	}
	natc := make(chan built, 1)
	go func() {
		bin := filepath.Join(work, "native")
		natc <- built{bin, goBuild(hdir, bin, overlayFile, false)}
	}()

	var patterns []string
	for _, p := range pkgs {
		patterns = append(patterns, "./"+p)
	}
	prog, err := sx.Load(hdir, []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"}, "verif", overlay, patterns...)
	if err != nil {
		fatal("%v", err)
	}
	tLoad := time.Since(t0)
	var fns []*ssa.Function
	for _, r := range refs {
		f := prog.Func("verifh/"+r.pkg, r.name)
		if f == nil {
			fatal("harness %s not found", r.name)
		}
		fns = append(fns, f)
	}
	cfg := sx.Config{Workers: *workers, Thorough: tier == "thorough", Seed: seed, Samples: 24, MaxViol: 6, AfterViol: 20 * time.Second, CrossEvery: 400}
	b := *budget
	if b == 0 {
		b = 480 * time.Second
		if tier == "thorough" {
			b = 3 * time.Hour
			cfg.CrossEvery = 50
			cfg.Samples = 60
		}
	}
	if *samples > 0 {
		cfg.Samples = *samples
	}
	cfg.Deadline = t0.Add(b)
	cfg.PathTime = 2 * time.Minute
	if tier == "thorough" {
		cfg.Timeout, cfg.Fallback = 30*time.Second, 180*time.Second
		cfg.MaxSteps = 200e6
		cfg.PathTime = 20 * time.Minute
	}
	known := loadFindings(filepath.Join(*root, "known-findings.json"))
	cfg.Known = func(h, msg string) bool { return matchFinding(known, *prop, h, msg) != nil }
	res := sx.Explore(prog, fns, cfg)
	tExp := time.Since(t0)

	nb := <-natc
	if nb.err != nil {
		fatal("the replay binary does not build: %v", nb.err)
	}

	// replay
	nat := &native{bin: nb.path, work: work, prop: *prop, thorough: tier == "thorough", hdir: hdir, overlay: overlayFile}
	exit := 0
	var evViol []string
	var knownHit []string
	var notes []string
	validated, mismatched := int64(0), int64(0)
	var mism []string
	if !*noNat {
		validated, mismatched, mism = nat.validate(res)
	}
	replayDir := filepath.Join(*root, "replay")
	os.MkdirAll(replayDir, 0o755)
	seenKey := map[string]bool{}
	for _, h := range res.Harness {
		keys := []string{}
		byKey := map[string][]sx.Violation{}
		for _, v := range h.Viol {
			k := v.Kind + "|" + v.Msg
			if byKey[k] == nil {
				keys = append(keys, k)
			}
			byKey[k] = append(byKey[k], v)
		}
		for _, k := range keys {
			vs := byKey[k]
			var ok bool
			var how string
			var vec *vector
			if *noNat {
				vec, ok, how = nat.vec(h.Name, vs[0]), true, "not replayed"
			} else {
				for i := range vs {
					vec = nat.vec(h.Name, vs[i])
					ok, how = nat.reproduce(vec)
					if ok {
						break
					}
				}
			}
			text := fmt.Sprintf("%s: %s [%s]", h.Name, vs[0].Msg, vs[0].Kind)
			if !ok {
				n := fmt.Sprintf("counterexample not reproduced natively (not reported): %s at %s: %s", text, vs[0].Where, how)
				notes = append(notes, n)
				h.Incompl["counterexample not reproduced natively"]++
				if *verbose {
					b, _ := json.Marshal(vec.Inputs)
					fmt.Println("UNREPRODUCED", n, string(b))
				}
				continue
			}
			kf := matchFinding(known, *prop, h.Name, vs[0].Msg)
			sum := sha256.Sum256([]byte(h.Name + k))
			path := filepath.Join(replayDir, *prop+"-"+hex.EncodeToString(sum[:5])+".json")
			writeJSON(path, vec)
			if kf != nil {
				if !seenKey[kf.What] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf.What)
					seenKey[kf.What] = true
					knownHit = append(knownHit, kf.What)
				}
				continue
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  %s\n  at %s\n  native: %s\n", text, vs[0].Where, how)
			evViol = append(evViol, text)
			exit = 1
		}
	}
	writeEvidence(filepath.Join(*root, "evidence", *prop+".json"), evidenceIn{
		prop: *prop, tier: tier, seed: seed, res: res, prog: prog, validated: validated, mismatched: mismatched, mism: mism,
		viol: evViol, known: knownHit, notes: notes, wall: time.Since(t0), work: work,
	})
	var paths, incompl int64
	for _, h := range res.Harness {
		paths += h.Paths
		for _, n := range h.Incompl {
			incompl += n
		}
		if *verbose || len(h.Incompl) > 0 || h.Pending > 0 {
			fmt.Printf("%-34s paths %6d infeasible %5d asserts %7d (solver %5d) branches %7d instrs %9d maxpath %8d busy %6.1fs t=%5.1fs pending %d\n",
				h.Name, h.Paths, h.Infeas, h.Asserts, h.AssertQ, h.Branches, h.Instrs, h.MaxPath, h.Busy().Seconds(), h.Elapsed.Seconds(), h.Pending)
			for i, k := range h.IncomplList() {
				if i == 8 {
					break
				}
				fmt.Printf("    incomplete x%d: %s\n", h.Incompl[k], k)
			}
		}
	}
	for e := range res.Expected {
		if res.Reached[e] == 0 {
			fmt.Printf("  witness not reached: %s\n", e)
		}
	}
	for _, s := range mism {
		fmt.Println("  engine/native mismatch:", s)
	}
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	st := res.Solver
	fmt.Printf("%s %s: %d harnesses, %d paths, %d solver queries (%d sat, %d unsat, %d unknown, %d cached), solver %.1fs, max %.1fs, cross-checked %d (disagree %d), native validation %d/%d, incomplete %d, load %.1fs explore %.1fs total %.1fs\n",
		*prop, tier, len(res.Harness), paths, st.Queries, st.Sat, st.Unsat, st.Unknown, st.CacheHits, st.Time.Seconds(), st.MaxQuery.Seconds(), st.CrossChecked, st.CrossDisagree,
		validated, validated+mismatched, incompl, tLoad.Seconds(), (tExp - tLoad).Seconds(), time.Since(t0).Seconds())
	if exit == 0 && len(evViol) == 0 {
		fmt.Printf("OK property=%s held on everything explored\n", *prop)
	}
	return exit
}

// makeOverlay generates the registry of the replay binary.
func makeOverlay(work, hdir string, refs []harnessRef) (map[string][]byte, string) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	seen := map[string]bool{}
	for _, r := range refs {
		if !seen[r.pkg] {
			seen[r.pkg] = true
			fmt.Fprintf(&sb, "\t%q\n", "verifh/"+r.pkg)
		}
	}
	sb.WriteString(")\n\nfunc init() {\n")
	for _, r := range refs {
		fmt.Fprintf(&sb, "\tregistry[%q] = %s.%s\n", r.name, r.pkg, r.name)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(work, "registry_gen.go")
	os.WriteFile(reg, []byte(sb.String()), 0o644)
	// the set parsers are not exported: an overlay file in their package is
	shim := filepath.Join(hdir, "shim", "replication.go.txt")
	target := "/repo/replication/zz_verif_shim.go"
	text, err := os.ReadFile(shim)
	if err != nil {
		fatal("%v", err)
	}
	ov := map[string]interface{}{"Replace": map[string]string{filepath.Join(hdir, "native", "registry_gen.go"): reg, target: shim}}
	of := filepath.Join(work, "overlay.json")
	writeJSON(of, ov)
	return map[string][]byte{target: text}, of
}

func goBuild(hdir, out, overlay string, race bool) error {
	args := []string{"build", "-tags=verif", "-overlay", overlay, "-o", out}
	env := goEnv("CGO_ENABLED=0")
	if race {
		args = append(args, "-race")
		env = goEnv("CGO_ENABLED=1")
	}
	c := exec.Command("go", append(args, "./native")...)
	c.Dir = hdir
	c.Env = env
	o, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, o)
	}
	return nil
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func loadFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%s: %v", path, err)
	}
	return f.Findings
}

func matchFinding(fs []finding, prop, h, msg string) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status != "known" || f.Property != prop {
			continue
		}
		if regexp.MustCompile("^(?:"+f.Harness+")$").MatchString(h) && regexp.MustCompile("^(?:"+f.Message+")$").MatchString(msg) {
			return f
		}
	}
	return nil
}

// native runs the replay binary.
type native struct {
	bin, work, prop, hdir, overlay string
	thorough                       bool
	raceOnce                       sync.Once
	raceErr                        error
	n                              int
	mu                             sync.Mutex
}

func (n *native) vec(h string, v sx.Violation) *vector {
	return &vector{Property: n.prop, Harness: h, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Thorough: n.thorough, Inputs: v.Inputs, Schedule: v.Sched}
}

type outcome struct {
	kind, msg string
	obs       []string
	raw       string
}

func (n *native) exec(bin string, v *vector, stress int, limit time.Duration) outcome {
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.work, fmt.Sprintf("v%d.json", n.n))
	n.mu.Unlock()
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	args := []string{f}
	if stress > 0 {
		args = append(args, strconv.Itoa(stress))
	}
	c := exec.Command("timeout", append([]string{"-k", "1", strconv.Itoa(int(limit.Seconds()) + 5), bin}, args...)...)
	c.Env = append(os.Environ(), fmt.Sprintf("REPLAY_LIMIT_MS=%d", limit.Milliseconds()), "GORACE=halt_on_error=0")
	out, err := c.CombinedOutput()
	o := outcome{raw: string(out)}
	for _, l := range strings.Split(string(out), "\n") {
		k, rest, _ := strings.Cut(l, " ")
		switch k {
		case "OK", "VIOLATION", "ASSUME", "TIMEOUT", "DIVERGED":
			if o.kind == "" {
				o.kind, o.msg = k, rest
			}
		case "OBS":
			_, r, _ := strings.Cut(rest, " ")
			o.obs = append(o.obs, r)
		}
	}
	if strings.Contains(o.raw, "WARNING: DATA RACE") {
		o.kind = "RACE"
		return o
	}
	if o.kind == "" {
		switch {
		case strings.Contains(o.raw, "all goroutines are asleep"):
			o.kind = "TIMEOUT"
		case strings.Contains(o.raw, "panic:") || strings.Contains(o.raw, "fatal error:"):
			o.kind = "PANIC"
			if i := strings.Index(o.raw, "panic:"); i >= 0 {
				l, _, _ := strings.Cut(o.raw[i:], "\n")
				o.msg = l
			}
		default:
			o.kind = "CRASH"
			o.msg = fmt.Sprint(err)
		}
	}
	return o
}

// zones are the process time zones a replay tries.
var zones = []string{"Asia/Kolkata", "America/New_York", "Australia/Lord_Howe"}

// reproduce replays a counterexample on the compiled code.
func (n *native) reproduce(v *vector) (bool, string) {
	if v.Kind == "race" {
		n.raceOnce.Do(func() { n.raceErr = goBuild(n.hdir, filepath.Join(n.work, "native-race"), n.overlay, true) })
		if n.raceErr != nil {
			return false, n.raceErr.Error()
		}
		return n.many(filepath.Join(n.work, "native-race"), v, 200, func(o outcome) bool { return o.kind == "RACE" })
	}
	good := func(o outcome) bool {
		switch v.Kind {
		case "deadlock":
			return o.kind == "TIMEOUT" || o.kind == "VIOLATION"
		case "panic":
			return o.kind == "PANIC" || o.kind == "VIOLATION"
		}
		return o.kind == "VIOLATION" || o.kind == "PANIC"
	}
	tries := 1
	if len(v.Schedule) > 0 || v.Kind == "deadlock" {
		tries = 400
	}
	ok, why := n.many(n.bin, v, tries, good)
	if !ok && tries == 1 {
		// the process's time zone is part of the environment
		for _, z := range zones {
			v.TZ = z
			if ok, w := n.many(n.bin, v, 1, good); ok {
				return ok, w + ", time zone " + z
			}
		}
		v.TZ = ""
	}
	return ok, why
}

func (n *native) many(bin string, v *vector, tries int, good func(outcome) bool) (bool, string) {
	limit := 20 * time.Second
	if v.Kind == "deadlock" {
		limit = 8 * time.Second
	}
	last := ""
	end := time.Now().Add(90 * time.Second)
	for i := 0; i < tries && time.Now().Before(end); {
		k := 1
		if i > 0 {
			k = min(2*runtime.NumCPU(), tries-i)
		}
		outs := make([]outcome, k)
		var wg sync.WaitGroup
		for j := 0; j < k; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); outs[j] = n.exec(bin, v, i+j, limit) }()
		}
		wg.Wait()
		for j, o := range outs {
			last = strings.TrimSpace(o.kind + " " + o.msg)
			if good(o) {
				return true, fmt.Sprintf("%s (run %d)", last, i+j+1)
			}
		}
		i += k
	}
	return false, last
}

// validate replays path samples and compares the observations.
func (n *native) validate(res *sx.Result2) (ok, bad int64, mism []string) {
	type job struct {
		h string
		s sx.Sample
	}
	var jobs []job
	for _, h := range res.Harness {
		for _, s := range h.Samples {
			jobs = append(jobs, job{h.Name, s})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			v := &vector{Property: n.prop, Harness: j.h, Thorough: n.thorough, Inputs: j.s.Inputs, TZ: zones[0]}
			o := n.exec(n.bin, v, 0, 20*time.Second)
			msg := ""
			if o.kind != "OK" {
				msg = o.kind + " " + o.msg
			} else {
				if len(o.obs) != len(j.s.Obs) {
					msg = fmt.Sprintf("%d observations, expected %d", len(o.obs), len(j.s.Obs))
				} else {
					for i, want := range j.s.Obs {
						if want.Val == "?" {
							continue
						}
						if w := want.Name + " " + want.Val; w != o.obs[i] {
							msg = fmt.Sprintf("observed %q, expected %q", o.obs[i], w)
							break
						}
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if msg == "" {
				ok++
			} else {
				bad++
				if len(mism) < 10 {
					b, _ := json.Marshal(j.s.Inputs)
					if len(b) > 600 {
						b = b[:600]
					}
					mism = append(mism, j.h+": "+msg+" inputs "+string(b))
				}
			}
		}()
	}
	wg.Wait()
	sort.Strings(mism)
	return
}
