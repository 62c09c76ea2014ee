package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	. "verifsim/core"
	"verifsim/simrt"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"
)

// c15: many requests in one process against each request alone in a fresh one.

// GenOne is the fresh process: it generates for the request on standard input.
func GenOne() int {
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		return 2
	}
	os.Stdout.Write(genOne(in))
	return 0
}

func parseReq(b []byte) *generate.CodeGeneratorRequest {
	var q generate.CodeGeneratorRequest
	if err := proto.Unmarshal(b, &q); err != nil {
		return nil
	}
	return &q
}

func genOne(in []byte) []byte {
	q := parseReq(in)
	if q == nil {
		return []byte("E")
	}
	return genObj(q)
}

// genObj returns K and the response, or E and why there is none.
func genObj(q *generate.CodeGeneratorRequest) (out []byte) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(simrt.Hang); ok {
				panic(h)
			}
			out = []byte("E")
		}
	}()
	res, err := generate.Generate(q)
	if err != nil {
		return []byte("E")
	}
	b, err := proto.Marshal(res)
	if err != nil {
		return []byte("E")
	}
	return append([]byte("K"), b...)
}

var freshCache = map[uint64][]byte{}
var reqCache = map[uint64][]byte{}

func poolRequest(v uint64) []byte {
	b, ok := reqCache[v]
	if !ok {
		r := NewRng(Mix(v, 15))
		b = genRequest(r)
		if v%5 == 4 {
			b = ApplyAll(b, []Fault{GenFault(r, NewSchema(), b, nil)})
		}
		reqCache[v] = b
	}
	return b
}

func spawn(bin string, args []string, env []string, dir string, in []byte) ([]byte, error) {
	cmd := exec.Command(bin)
	cmd.Args = args
	cmd.Env = env
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	var msg bytes.Buffer
	cmd.Stderr = &msg
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		die("a process that generates for one request does not end")
	}
	if err != nil && (bytes.Contains(msg.Bytes(), []byte("panic: ")) || bytes.Contains(msg.Bytes(), []byte("fatal error: "))) {
		err = errCrash
	}
	return out.Bytes(), err
}

// errCrash: the generator ends the process it runs in.
var errCrash = errors.New("crash")

// fresh is what a process of its own makes of the request.
func fresh(v uint64, req []byte) []byte {
	b, ok := freshCache[v]
	if !ok {
		self := os.Getenv("VERIF_GENONE")
		if self == "" {
			var err error
			if self, err = os.Executable(); err != nil {
				die("%v", err)
			}
		}
		var err error
		b, err = spawn(self, []string{self, "genone"}, []string{"GOMAXPROCS=1", "GORACE="}, "", req)
		if err == errCrash {
			b = []byte("X")
		} else if err != nil || len(b) == 0 {
			die("fresh process: %v", err)
		}
		freshCache[v] = b
	}
	return b
}

func init() {
	Scenarios["C15"] = &Scenario{
		Rule: "one script per seed: 1-5 requests (drawn schema families, some damaged) are generated 1-8 times by each of 1-4 threads, on request objects of their own or shared, under a seeded preemptive scheduler and a seeded map iteration order, after whatever the process generated before; every response must equal, byte for byte, that of a fresh process given the same request, and no request may change. Sometimes the plugin itself runs as a further process with a shifted clock and another environment, working directory, set of files, host name, user, process ids and command line. Second pass under the race detector. Non-trivial: at least one preemption or a second generation in the process; distinct by hash of the (site, task) sequence of preemptions and the requests",
		Real: "generate (instrumented), golang/protobuf, the plugin as a process", Stub: "goroutine scheduler, map iteration order; for the plugin process clock, environment, directory, files, identity and command line",
		Gen: func(r *Rng, sc *Script) {
			pool := 60
			if os.Getenv("VERIF_TIER") == "thorough" {
				pool = 600
			}
			n := r.In(1, 5)
			for i := 0; i < n; i++ {
				sc.Steps = append(sc.Steps, Step{T: -1, Op: "req", V: uint64(r.N(pool)) + EnvSeed()*1000})
			}
			sc.Threads = r.In(1, 4)
			for k := r.In(1, 8) * sc.Threads; k > 0; k-- {
				sc.Steps = append(sc.Steps, Step{T: r.N(sc.Threads), Op: "gen", N: r.N(n), K: r.N(3)})
			}
			if r.P(1, 15) {
				sc.Steps = append(sc.Steps, Step{T: -1, Op: "plugin", N: r.N(n), V: r.U64() >> uint(r.In(24, 60)), K: r.N(16), N2: r.N(16)})
			}
			genSched(r, sc)
			sc.Gap *= uint64(r.In(5, 200))
		},
		Run: runGenerate,
	}
}

// EnvSeed is the base seed of the check.
func EnvSeed() uint64 {
	var n uint64
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func runGenerate(sc *Script, st *Stats) *Violation {
	n := threads(sc)
	var reqs [][]byte
	var want [][]byte
	var shared []*generate.CodeGeneratorRequest
	for i := range sc.Steps {
		p := &sc.Steps[i]
		if p.Op == "req" {
			b := poolRequest(p.V)
			st.Note(p.V)
			reqs = append(reqs, b)
			want = append(want, fresh(p.V, b))
			shared = append(shared, parseReq(b))
		}
	}
	if len(reqs) == 0 {
		return nil
	}
	type result struct {
		step   int
		out    []byte
		before []byte
		q      *generate.CodeGeneratorRequest
	}
	got := make([][]*result, n)
	fs := make([]func(), n)
	canon := func(q *generate.CodeGeneratorRequest) []byte {
		b, _ := proto.Marshal(q)
		return b
	}
	var sharedBefore [][]byte
	for _, q := range shared {
		if q == nil {
			sharedBefore = append(sharedBefore, nil)
			continue
		}
		sharedBefore = append(sharedBefore, canon(q))
	}
	count := 0
	for t := range fs {
		t := t
		for i := range sc.Steps {
			p := &sc.Steps[i]
			if p.Op != "gen" || p.T%n != t {
				continue
			}
			k := p.N % len(reqs)
			if want[k][0] == 'X' { // not in this process
				st.Count("op:crash")
				continue
			}
			x := &result{step: i, q: shared[k]}
			if p.K > 0 && x.q != nil {
				x.q = parseReq(reqs[k])
				x.before = canon(x.q)
			}
			if x.q != nil {
				count++
				got[t] = append(got[t], x)
			}
		}
		fs[t] = func() {
			for _, x := range got[t] {
				simrt.SetLimit(50000000)
				x.out = genObj(x.q)
			}
		}
	}
	if count > 1 || st.Runs > 0 {
		st.Nontrivial()
	}
	res := simrt.Run(fs, sc.schedule())
	var v *Violation
	for t := 0; v == nil && t < n; t++ {
		if res.Panics[t] != nil {
			v = panicViolation(-1, res.Panics[t], res.Stacks[t])
		}
		for _, x := range got[t] {
			if v != nil {
				break
			}
			k := sc.Steps[x.step].N % len(reqs)
			if !bytes.Equal(x.out, want[k]) {
				v = violation("differs", x.step, "thread %d, request %d: %s", t, k, diffGen(x.out, want[k]))
			} else if x.before != nil && !bytes.Equal(canon(x.q), x.before) {
				v = violation("modified", x.step, "request %d was changed by generating for it", k)
			}
		}
	}
	for k, q := range shared {
		if v == nil && q != nil && !bytes.Equal(canon(q), sharedBefore[k]) {
			v = violation("modified", -1, "request %d was changed by generating for it", k)
		}
	}
	for i := range sc.Steps {
		p := &sc.Steps[i]
		st.Count("op:" + p.Op)
		if p.Op != "plugin" || v != nil {
			continue
		}
		// Yet another process, at another time and place.
		bin := os.Getenv("VERIF_PLUGIN")
		if bin == "" {
			die("VERIF_PLUGIN is not set")
		}
		st.Fault("clock-jump")
		k := p.N % len(reqs)
		env := []string{fmt.Sprintf("VERIFSIM_SKEW=%d", p.V), "HOME=/nonexistent", fmt.Sprintf("USER=u%d", p.K), "TZ=Asia/Tokyo", fmt.Sprintf("GOMAXPROCS=%d", 1+p.K&3)}
		if p.K&4 != 0 {
			st.Fault("other-environment")
			env = append(env, "VERIFSIM_ENV="+[]string{"1", "x", "true", "/nonexistent"}[p.K&3])
		}
		name := bin
		if p.N2&1 != 0 {
			st.Fault("other-name")
			name = fmt.Sprintf("/opt/x%d/protoc-gen-z%d", p.K, p.K)
		}
		if p.N2&2 != 0 {
			st.Fault("other-identity")
			env = append(env, fmt.Sprintf("VERIFSIM_HOST=h%d", p.K), fmt.Sprintf("VERIFSIM_ID=%d", 1000+p.K))
		}
		if p.N2&4 != 0 {
			// Whatever file it looks for exists.
			st.Fault("other-files")
			env = append(env, "VERIFSIM_FILE="+c15file(p.K))
		}
		dir := ""
		if p.K&8 != 0 {
			// A directory that holds files of the names in the request.
			st.Fault("other-directory")
			dir = c15place(reqs[k])
		}
		out, err := spawn(bin, append([]string{name}, []string{"--x"}[:p.K&1]...), env, dir, reqs[k])
		if dir != "" {
			os.RemoveAll(dir)
		}
		if err != nil {
			out = []byte("E")
			if want[k][0] == 'X' {
				continue
			}
		} else {
			out = append([]byte("K"), out...)
		}
		if !bytes.Equal(out, want[k]) {
			v = violation("differs", i, "the plugin, request %d: %s", k, diffGen(out, want[k]))
		}
	}
	finishSched(sc, st, res, v != nil)
	return v
}

var c15files string

// c15file is a file with some content.
func c15file(k int) string {
	if c15files == "" {
		d, err := os.MkdirTemp("", "zgen")
		if err != nil {
			die("%v", err)
		}
		c15files = d
		OnExit = append(OnExit, func() { os.RemoveAll(d) })
	}
	f := filepath.Join(c15files, fmt.Sprint(k&3))
	if err := os.WriteFile(f, []byte([]string{"", "1\n", "package x\n", "x: true\n"}[k&3]), 0600); err != nil {
		die("%v", err)
	}
	return f
}

// c15place makes a scratch directory for a process.
func c15place(req []byte) string {
	d, err := os.MkdirTemp("", "zgen")
	if err != nil {
		die("%v", err)
	}
	q := parseReq(req)
	for _, f := range q.GetProtoFile() {
		for _, n := range []string{f.GetName(), strings.ReplaceAll(f.GetName(), ".proto", ".zeropb.go"), f.GetPackage()} {
			if len(n) < 100 && filepath.IsLocal(n) && !strings.Contains(n, "\x00") {
				os.MkdirAll(filepath.Join(d, filepath.Dir(n)), 0700)
				os.WriteFile(filepath.Join(d, n), []byte("package x\n"), 0600)
			}
		}
	}
	return d
}

func diffGen(got, want []byte) string {
	if len(got) == 0 || len(want) == 0 || got[0] != want[0] {
		return fmt.Sprintf("got a response: %v, in a fresh process: %v", bytes.HasPrefix(got, []byte("K")), bytes.HasPrefix(want, []byte("K")))
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, in a fresh process %d; they differ from byte %d: %q, in a fresh process %q", len(got), len(want), i, clip(string(got), i), clip(string(want), i))
}
