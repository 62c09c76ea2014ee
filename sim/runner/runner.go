// Package runner executes batches of simulated runs in several processes,
// minimises and confirms violations and writes evidence.
package runner

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/scen"
	"verifsim/simrt"
)

// Setup, if set, runs once before any script of the process.
var Setup func(prop string) error

func die(f string, a ...any) int {
	fmt.Fprintf(os.Stderr, "zsim: "+f+"\n", a...)
	return 2
}

// Main is the command line.
func Main(args []string) int {
	if len(args) == 0 {
		return die("check|worker|replay|minimise|hashes")
	}
	debug.SetPanicOnFault(true)
	defer func() {
		for _, f := range scen.OnExit {
			f()
		}
	}()
	switch args[0] {
	case "check":
		return check(args[1:])
	case "worker":
		return worker(args[1:])
	case "replay":
		return replay(args[1:])
	case "minimise":
		return minimise(args[1:])
	case "hashes":
		return hashes(args[1:])
	case "broken":
		return broken(args[1:])
	case "genserve":
		return scen.GenServe()
	case "genone":
		return scen.GenOne()
	}
	return die("unknown command %s", args[0])
}

type result struct {
	Runs, Events, NonTrivial, Switches int
	Steps                              uint64
	C                                  map[string]int
	Samples                            []string
	Sites                              []int
	Script                             *scen.Script // of the first violation
	Index                              int
	Violation                          *scen.Violation
	Seconds                            float64
}

// worker runs seeds from..to-1 and prints a result.
func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	secs := fs.Float64("seconds", 1e9, "")
	out := fs.String("out", "", "result file")
	prog := fs.String("progress", "", "progress file")
	fs.Parse(args)
	if Setup != nil {
		if err := Setup(*prop); err != nil {
			return die("%v", err)
		}
	}
	debug.SetGCPercent(400)
	st := scen.NewStats()
	res := result{Index: -1}
	start := time.Now()
	slow, _ := strconv.ParseFloat(os.Getenv("VERIFSIM_SLOW"), 64) // report runs that take longer
	var pf *os.File
	if *prog != "" {
		var err error
		if pf, err = os.Create(*prog); err != nil {
			return die("%v", err)
		}
	}
	for i := *from; i < *to; i++ {
		if time.Since(start).Seconds() > *secs {
			break
		}
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i))
			pf.WriteAt(b[:], 0)
		}
		sc := scen.Make(*prop, scen.RunSeed(*base, *prop, i))
		t0 := time.Now()
		v := scen.Execute(sc, st)
		if d := time.Since(t0).Seconds(); d > slow && slow > 0 {
			fmt.Fprintf(os.Stderr, "slow: run %d: %.5f s, %d events, opt %v\n", i, d, len(sc.Steps), sc.Opt)
		}
		if len(st.Samples) < 2 && (i-*from) == 3 || i-*from == 17 {
			st.Samples = append(st.Samples, sample(sc))
		}
		if v != nil && v.Class == "alloc" && !repeats(sc, i, *from, *base, *prop, *out) {
			// Something else in this process allocated (the Go runtime under
			// load), or nobody can make the code do it again.
			st.Count("probe:unrepeated-allocation")
			fmt.Fprintf(os.Stderr, "run %d: %s, not repeated\n", i, v)
			v = nil
		}
		if v != nil {
			res.Script, res.Index, res.Violation = sc, i, v
			break
		}
	}
	res.Runs, res.Events, res.NonTrivial, res.Steps, res.C, res.Samples = st.Runs, st.Events, st.NonTrivial, st.Steps, st.C, st.Samples
	res.Switches = st.Switches
	for i, r := range simrt.Reached {
		if r {
			res.Sites = append(res.Sites, i)
		}
	}
	res.Seconds = time.Since(start).Seconds()
	b, err := json.Marshal(res)
	if err != nil {
		return die("%v", err)
	}
	if err := os.WriteFile(*out, b, 0644); err != nil {
		return die("%v", err)
	}
	hf, err := os.Create(*out + ".h")
	if err != nil {
		return die("%v", err)
	}
	bw := bufio.NewWriter(hf)
	for h := range st.Hashes {
		binary.Write(bw, binary.LittleEndian, h)
	}
	bw.Flush()
	hf.Close()
	return 0
}

// repeats says whether a script whose run allocated does that again: in this
// process, in a fresh one, or in one that does all the runs since from first.
func repeats(sc *scen.Script, i, from int, base uint64, prop, tmp string) bool {
	for k := 0; k < 2; k++ {
		if v := scen.Execute(sc, scen.NewStats()); v != nil && v.Class == "alloc" {
			return true
		}
	}
	self, err := os.Executable()
	if err != nil {
		return true
	}
	f := tmp + ".again"
	p := pass{bin: self}
	if save(sc, f) != nil {
		return true
	}
	if c, _ := reproduce(p, f); c == "alloc" {
		return true
	}
	b := &scen.Script{Prop: prop, Seed: sc.Seed, Batch: &scen.Batch{Base: base, From: from, To: i + 1}, Opt: map[string]int{}}
	for k, v := range sc.Opt {
		b.Opt[k] = v
	}
	if scen.EvoN > 0 {
		b.Opt["evoseed"], b.Opt["evon"], b.Opt["evofirst"] = int(scen.EvoSeed), scen.EvoN, scen.EvoFirst
	}
	if save(b, f) != nil {
		return true
	}
	c, _ := reproduce(p, f)
	return c == "alloc"
}

func sample(sc *scen.Script) string {
	c := *sc
	if len(c.Steps) > 4 {
		c.Steps = c.Steps[:4]
	}
	c.Steps = append([]scen.Step(nil), c.Steps...)
	for i := range c.Steps {
		if len(c.Steps[i].B) > 48 {
			c.Steps[i].B = c.Steps[i].B[:48]
		}
		c.Steps[i].Faults = append(c.Steps[i].Faults[:0:0], c.Steps[i].Faults...)
		for j := range c.Steps[i].Faults {
			if d := c.Steps[i].Faults[j].D; len(d) > 48 {
				c.Steps[i].Faults[j].D = d[:48]
			}
		}
	}
	b, _ := json.Marshal(&c)
	if len(b) > 2500 {
		b = b[:2500]
	}
	return fmt.Sprintf("seed %d, %d steps, begins: %s", sc.Seed, len(sc.Steps), b)
}

// runScript executes a script, possibly a batch, in this process.
func runScript(sc *scen.Script, st *scen.Stats) *scen.Violation {
	if sc.Batch != nil {
		for i := sc.Batch.From; i < sc.Batch.To; i++ {
			if v := scen.Execute(scen.Make(sc.Prop, scen.RunSeed(sc.Batch.Base, sc.Prop, i)), st); v != nil {
				return v
			}
		}
		return nil
	}
	return scen.Execute(sc, st)
}

// replay executes a saved script: exit 1 if the violation is there.
func replay(args []string) int {
	if len(args) < 1 {
		return die("replay FILE")
	}
	sc, err := scen.Load(args[0])
	if err != nil {
		return die("%v", err)
	}
	if Setup != nil {
		if err := Setup(sc.Prop); err != nil {
			return die("%v", err)
		}
	}
	st := scen.NewStats()
	st.Verbose = len(args) > 1 && args[1] == "-v"
	v := runScript(sc, st)
	for _, l := range st.Lines() {
		fmt.Println(l)
	}
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("class=%s\n%s\n", v.Class, v)
	fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Prop, args[0])
	return 1
}

// minimise IN OUT seconds
func minimise(args []string) int {
	sc, err := scen.Load(args[0])
	if err != nil {
		return die("%v", err)
	}
	if Setup != nil {
		if err := Setup(sc.Prop); err != nil {
			return die("%v", err)
		}
	}
	secs, _ := strconv.Atoi(args[2])
	n0 := len(sc.Steps)
	best, tries := scen.Minimise(sc, sc.Class, func(c *scen.Script) *scen.Violation {
		return scen.Execute(c, scen.NewStats())
	}, time.Duration(secs)*time.Second)
	st := scen.NewStats()
	st.Verbose = true
	v := scen.Execute(best, st)
	if v == nil {
		return die("minimised script does not fail")
	}
	best.Message = v.String()
	best.Trace = st.Lines()
	if err := save(best, args[1]); err != nil {
		return die("%v", err)
	}
	fmt.Printf("minimised from %d to %d steps in %d runs\n", n0, len(best.Steps), tries)
	return 0
}

func save(sc *scen.Script, file string) error {
	b, err := json.MarshalIndent(sc, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0644)
}

// hashes prints the trace hash of each seed, to prove determinism.
func hashes(args []string) int {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	fs.Parse(args)
	if Setup != nil {
		if err := Setup(*prop); err != nil {
			return die("%v", err)
		}
	}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for i := *from; i < *to; i++ {
		st := scen.NewStats()
		v := scen.Execute(scen.Make(*prop, scen.RunSeed(*base, *prop, i)), st)
		fmt.Fprintf(w, "%d %016x %d %v\n", i, st.TraceHash(), st.Steps, v != nil)
	}
	return 0
}

// pass is one build of the simulator working on a share of the seeds.
type pass struct {
	name  string
	bin   string
	runs  int
	env   []string
	procs int // processes in total; at most the number of CPUs at a time
	off   int // first seed index
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	runs := fs.Int("runs", 1000, "")
	secs := fs.Float64("seconds", 60, "wall cap for the runs")
	raceBin := fs.String("race", "", "race-detector build for a second pass")
	raceRuns := fs.Int("race-runs", 0, "")
	raceProcs := fs.Int("race-procs", 16, "")
	altBin := fs.String("alt", "", "32-bit build for a second pass")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "directory")
	level := fs.String("level", "exploration", "")
	note := fs.String("note", "", "appended to the evidence")
	sites := fs.String("sites", "", "what the instrumenter wrote about its yield points")
	env := fs.String("env", "", "environment for workers, comma separated")
	fs.Parse(args)
	start := time.Now()
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			base = uint64(n)
		} else {
			return die("VERIF_SEED=%q", s)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	fmt.Printf("%s: base seed %d, tier %s\n", *prop, base, tier)
	self, err := os.Executable()
	if err != nil {
		return die("%v", err)
	}
	tmp, err := os.MkdirTemp("", "zsim")
	if err != nil {
		return die("%v", err)
	}
	defer os.RemoveAll(tmp)
	var wenv []string
	if *env != "" {
		wenv = strings.Split(strings.ReplaceAll(*env, ":", ","), ";")
	}
	cpus := runtime.NumCPU()
	// One thread of its own for each of as many workers as there are processors.
	wenv = append(wenv, "GOMAXPROCS=1")
	passes := []pass{{name: "main", bin: self, runs: *runs, env: wenv, procs: cpus}}
	if *raceBin != "" {
		passes = append(passes, pass{name: "race", bin: *raceBin, runs: *raceRuns, procs: *raceProcs, off: 1 << 24,
			env: append([]string{"GORACE=halt_on_error=1 exitcode=66 history_size=3"}, wenv...)})
	}
	if *altBin != "" {
		passes = append(passes, pass{name: "32-bit", bin: *altBin, runs: *runs / 4, env: wenv, procs: cpus, off: 1 << 25})
	}
	total := result{C: map[string]int{}}
	hashes := map[uint64]struct{}{}
	reached := map[int]bool{}
	perPass := map[string]any{}
	type found struct {
		sc    *scen.Script
		index int
		v     *scen.Violation
		p     pass
		from  int
	}
	var first *found
	better := func(f *found) {
		if first == nil || f.index < first.index {
			first = f
		}
	}
	runStart := time.Now()
	for _, p := range passes {
		pStart := time.Now()
		chunk := (p.runs + p.procs - 1) / p.procs
		left := *secs - time.Since(runStart).Seconds()
		if len(passes) > 1 && p.name == "main" {
			if left *= 0.5; *altBin != "" {
				left *= 1.6
			}
		} else if p.name == "32-bit" && left < *secs*0.2 {
			left = *secs * 0.2
		} else if p.name == "race" && left < *secs*0.3 {
			left = *secs * 0.3 // the pass before was held up by a long run
		}
		rounds := (p.procs + cpus - 1) / cpus
		type job struct {
			from, to int
			out      string
			prog     string
			err      error
			stderr   bytes.Buffer
		}
		var jobs []*job
		for k := 0; k < p.procs; k++ {
			j := &job{from: p.off + k*chunk, to: p.off + min((k+1)*chunk, p.runs)}
			if j.from >= j.to {
				continue
			}
			j.out = filepath.Join(tmp, fmt.Sprintf("%s-%d", p.name, k))
			j.prog = j.out + ".p"
			jobs = append(jobs, j)
		}
		sem := make(chan struct{}, cpus)
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				cmd := exec.Command(p.bin, "worker", "-prop", *prop, "-base", fmt.Sprint(base), "-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to),
					"-seconds", fmt.Sprint(left/float64(rounds)), "-out", j.out, "-progress", j.prog)
				cmd.Env = append(os.Environ(), p.env...)
				cmd.Stderr = &j.stderr
				t := time.AfterFunc(time.Duration((left/float64(rounds)+120)*float64(time.Second)), func() { cmd.Process.Kill() })
				j.err = cmd.Run()
				if os.Getenv("VERIFSIM_SLOW") != "" {
					os.Stderr.Write(j.stderr.Bytes())
				}
				t.Stop()
			}(j)
		}
		wg.Wait()
		pr := result{C: map[string]int{}}
		for _, j := range jobs {
			if j.err != nil {
				// The process died: a fatal error or a report of the race
				// detector. Find out whether the run it was in does that again.
				b, err := os.ReadFile(j.prog)
				if err != nil || len(b) < 8 {
					fmt.Fprintf(os.Stderr, "%s", tail(j.stderr.Bytes(), 3000))
					return die("worker failed before its first run: %v", j.err)
				}
				i := int(binary.LittleEndian.Uint64(b))
				class := deathClass(j.err, j.stderr.Bytes())
				fmt.Printf("worker died in run %d (%v)\n", i, j.err)
				if class == "" {
					fmt.Fprintf(os.Stderr, "%s", tail(j.stderr.Bytes(), 3000))
					return die("worker failed: %v", j.err)
				}
				sc := scen.Make(*prop, scen.RunSeed(base, *prop, i))
				better(&found{sc, i, &scen.Violation{Class: class, Msg: firstLines(j.stderr.Bytes())}, p, j.from})
				continue
			}
			b, err := os.ReadFile(j.out)
			if err != nil {
				return die("%v", err)
			}
			var r result
			if err := json.Unmarshal(b, &r); err != nil {
				return die("%v", err)
			}
			hb, _ := os.ReadFile(j.out + ".h")
			for i := 0; i+8 <= len(hb); i += 8 {
				hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
			}
			pr.Runs += r.Runs
			pr.Events += r.Events
			pr.Steps += r.Steps
			pr.Switches += r.Switches
			for _, i := range r.Sites {
				reached[i] = true
			}
			for k, v := range r.C {
				pr.C[k] += v
			}
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			if r.Violation != nil {
				better(&found{r.Script, r.Index, r.Violation, p, j.from})
			}
		}
		el := time.Since(pStart).Seconds()
		perPass[p.name] = map[string]any{"runs": pr.Runs, "seconds": round(el), "runs_per_hour": int(float64(pr.Runs) / el * 3600), "processes": len(jobs)}
		fmt.Printf("%s: pass %s: %d runs, %d events, %d simulated steps in %.1fs\n", *prop, p.name, pr.Runs, pr.Events, pr.Steps, el)
		total.Runs += pr.Runs
		total.Events += pr.Events
		total.Steps += pr.Steps
		total.Switches += pr.Switches
		for k, v := range pr.C {
			total.C[k] += v
		}
		if first != nil {
			break
		}
		if pr.Runs == 0 {
			return die("no runs in pass %s", p.name)
		}
	}
	wall := time.Since(runStart).Seconds()

	violations := 0
	if first != nil {
		violations = 1
	}
	s := scen.Scenarios[*prop]
	faults, ops, probes := map[string]int{}, map[string]int{}, map[string]int{}
	for k, v := range total.C {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "op:"):
			ops[k[3:]] = v
		case strings.HasPrefix(k, "probe:"):
			probes[k[6:]] = v
		}
	}
	if len(total.Samples) > 4 {
		total.Samples = total.Samples[:4]
	}
	cov := map[string]any{
		"evaluations": total.Runs, "distinct_nontrivial": len(hashes), "rule": s.Rule, "samples": total.Samples,
		"runs_per_hour": int(float64(total.Runs) / wall * 3600), "runs_note": "an evaluation is one simulated run of one seed",
		"simulated_time": fmt.Sprintf("%d scheduler steps (the code has no clock; a step is one statement of the code under test)", total.Steps),
		"events":         total.Events, "faults_injected": faults, "operations": ops, "probes": probes, "context_switches": total.Switches,
		"distinct_measure": "distinct trace hashes, see rule", "passes": perPass, "components_real": s.Real, "components_stub": s.Stub,
	}
	if n := total.C["simulated-seconds"]; n > 0 {
		cov["simulated_time"] = fmt.Sprintf("%d s during stalls of the peers, %d system calls", n, total.Steps)
	}
	if in := instrumentation(*sites, reached); in != nil {
		cov["instrumentation"] = in
	}
	if *note != "" {
		cov["note"] = *note
	}
	if *evidence != "" {
		if err := writeEvidence(*evidence, *prop, tier, base, *level, cov, time.Since(start), violations); err != nil {
			return die("%v", err)
		}
	}
	if first == nil {
		fmt.Printf("%s: held on %d runs (%d distinct non-trivial)\n", *prop, total.Runs, len(hashes))
		return 0
	}
	return report(first.sc, first.index, first.v, first.p, first.from, base, *prop, *replays, tmp)
}

// instrumentation describes the yield points of the code under test and which of
// them the runs passed.
func instrumentation(file string, reached map[int]bool) map[string]any {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var in struct{ Sites, Notes []string }
	if json.Unmarshal(b, &in) != nil {
		return nil
	}
	type count struct{ Sites, Reached int }
	files := map[string]*count{}
	not := []string{}
	file1 := func(s string) string { return s[:strings.LastIndexByte(s, ':')] }
	for i, s := range in.Sites[1:] {
		f := file1(s)
		if files[f] == nil {
			files[f] = &count{}
		}
		files[f].Sites++
		if reached[i+1] {
			files[f].Reached++
		}
	}
	for i, s := range in.Sites[1:] {
		if !reached[i+1] && files[file1(s)].Reached > 0 && len(not) < 100 {
			not = append(not, s)
		}
	}
	return map[string]any{"yield_points": files, "not_reached_in_files_reached": not, "notes": in.Notes}
}

func writeEvidence(file, prop, tier string, base uint64, level string, cov map[string]any, wall time.Duration, violations int) error {
	ev := map[string]any{"property": prop, "tier": tier, "seed": int64(base), "level": level, "coverage": cov, "wall_s": round(wall.Seconds()), "violations": violations,
		"assumptions": []string{"sampling, not enumeration: a clean batch is evidence, not proof", "the Go compiler, standard library and the harness's reference reader/encoder are trusted"}}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(file), 0755)
	return os.WriteFile(file, append(b, '\n'), 0644)
}

// broken reports a violation that shows when the nodes are built: the generator
// fails on a family of schema versions, or its output does not compile.
func broken(args []string) int {
	fs := flag.NewFlagSet("broken", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int("evoseed", 1, "")
	fam := fs.Int("fam", 0, "")
	msg := fs.String("msg", "", "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	fs.Parse(args)
	sc := &scen.Script{Prop: *prop, Seed: uint64(*seed), Class: "build", Message: *msg,
		Opt: map[string]int{"evoseed": *seed, "evofirst": *fam, "evon": 1, "fam": *fam, "build": 1}}
	os.MkdirAll(*replays, 0755)
	file := filepath.Join(*replays, fmt.Sprintf("%s-build-%d-%d.json", *prop, *seed, *fam))
	if err := save(sc, file); err != nil {
		return die("%v", err)
	}
	if *evidence != "" {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		cov := map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": "a family of schema versions the nodes' code could not be built for", "samples": []string{*msg}}
		if err := writeEvidence(*evidence, *prop, tier, uint64(*seed), "exploration", cov, 0, 1); err != nil {
			return die("%v", err)
		}
	}
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", *msg, *prop, file)
	return 1
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

// deathClass says what kind of violation the death of a process is, if any.
func deathClass(err error, stderr []byte) string {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return ""
	}
	switch {
	case ee.ExitCode() == 66 && bytes.Contains(stderr, []byte("DATA RACE")):
		if raceInCode(stderr) {
			return "data-race"
		}
		return ""
	case bytes.Contains(stderr, []byte("fatal error: concurrent map")),
		bytes.Contains(stderr, []byte("stack overflow")), bytes.Contains(stderr, []byte("goroutine stack exceeds")),
		bytes.Contains(stderr, []byte("fatal error: fault")), bytes.Contains(stderr, []byte("fatal error: unexpected signal")),
		bytes.Contains(stderr, []byte("SIGSEGV")), bytes.Contains(stderr, []byte("fatal error: found bad pointer")),
		bytes.Contains(stderr, []byte("checkptr")):
		return "fatal"
	}
	return ""
}

// drawnCode is what the generator under test wrote for drawn schemas.
var drawnCode = regexp.MustCompile(`verifsim/evogen/f\d+v\d+\.`)

// raceInCode: both accesses of the report are made by the code under test (or
// on its behalf).
func raceInCode(b []byte) bool {
	return bytes.Contains(b, []byte("danhhz/zeropb")) || drawnCode.Match(b)
}

func firstLines(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
		if len(out) >= 14 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// reproduce runs a script file in a fresh process and returns the class seen.
func reproduce(p pass, file string) (string, string) {
	cmd := exec.Command(p.bin, "replay", file)
	cmd.Env = append(os.Environ(), p.env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	t := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	if err == nil {
		return "", ""
	}
	if c := deathClass(err, errb.Bytes()); c != "" {
		return c, firstLines(errb.Bytes())
	}
	class, msg := "", ""
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "class=") {
			class = l[6:]
		}
		if l != "" && !strings.HasPrefix(l, "VIOLATION") {
			msg += l + "\n"
		}
	}
	return class, msg
}

func report(sc *scen.Script, index int, v *scen.Violation, p pass, from int, base uint64, prop, dir, tmp string) int {
	os.MkdirAll(dir, 0755)
	fmt.Printf("%s: run %d (seed %d, pass %s): %s\n", prop, index, sc.Seed, p.name, v)
	sc.Class, sc.Message = v.Class, v.String()
	if sc.Opt == nil {
		sc.Opt = map[string]int{}
	}
	if p.name == "race" {
		sc.Opt["race"] = 1
	}
	if p.name == "32-bit" {
		sc.Opt["wordsize"] = 32
	}
	raw := filepath.Join(tmp, "raw.json")
	if err := save(sc, raw); err != nil {
		return die("%v", err)
	}
	final := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, sc.Seed))
	if got, _ := reproduce(p, raw); got == v.Class {
		ok := false
		if v.Class == "fatal" || v.Class == "data-race" {
			// Every candidate needs a process of its own.
			best, tries := scen.Minimise(sc, v.Class, func(c *scen.Script) *scen.Violation {
				f := filepath.Join(tmp, "cand.json")
				if save(c, f) != nil {
					return nil
				}
				if g, m := reproduce(p, f); g != "" {
					return &scen.Violation{Class: g, Msg: m}
				}
				return nil
			}, 40*time.Second)
			fmt.Printf("minimised to %d steps in %d runs\n", len(best.Steps), tries)
			ok = save(best, final) == nil
		} else {
			ctx, stop := context.WithTimeout(context.Background(), 120*time.Second)
			defer stop()
			cmd := exec.CommandContext(ctx, p.bin, "minimise", raw, final, "60")
			cmd.Env = append(os.Environ(), p.env...)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			ok = cmd.Run() == nil
		}
		if ok {
			if g, m := reproduce(p, final); g == v.Class {
				return violated(m, prop, final)
			}
			fmt.Println("the minimised script does not fail in a fresh process, keeping the original")
		}
		if err := save(sc, final); err != nil {
			return die("%v", err)
		}
		return violated("", prop, final)
	}
	// Depends on what the process did before: replay the whole batch.
	if scen.EvoN > 0 {
		sc.Opt["evoseed"], sc.Opt["evon"], sc.Opt["evofirst"] = int(scen.EvoSeed), scen.EvoN, scen.EvoFirst
	}
	b := &scen.Script{Prop: prop, Seed: sc.Seed, Batch: &scen.Batch{Base: base, From: from, To: index + 1}, Class: v.Class, Message: v.String(), Opt: sc.Opt}
	if err := save(b, final); err != nil {
		return die("%v", err)
	}
	if got, m := reproduce(p, final); got == v.Class {
		// Drop as many of the earlier runs as possible.
		for lo := (from + index) / 2; lo < index; lo = (lo + index + 1) / 2 {
			c := *b
			c.Batch = &scen.Batch{Base: base, From: lo, To: index + 1}
			f := filepath.Join(tmp, "cand.json")
			if save(&c, f) != nil {
				break
			}
			if g, _ := reproduce(p, f); g != v.Class {
				break
			}
			save(&c, final)
		}
		return violated(m, prop, final)
	}
	if v.Class == "alloc" {
		return die("run %d failed with %s but does not do so again in a fresh process", index, v)
	}
	// The code under test depends on something outside the simulation (real
	// randomness, addresses). What was observed is a violation all the same.
	return violated("not decided by the seed: it does not happen in every process", prop, final)
}

// violated prints the verdict on a line of its own.
func violated(m, prop, file string) int {
	if m != "" {
		fmt.Println(strings.TrimRight(m, "\n"))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	return 1
}
