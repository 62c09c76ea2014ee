package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	. "verifsim/core"
	"verifsim/evo"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"
)

// c13: one run of the real plugin, as a process whose system calls on its
// standard descriptors are answered from a script.

var c13dir string

// die ends the process: something is wrong with the harness, not the code.
func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "zsim: "+f+"\n", a...)
	os.Exit(2)
}

// expected is what the generator makes of a request: the response's files, or
// why there is none.
func expected(req []byte) (files []evo.Out, why string) {
	b := serve(req)
	if b[0] != 'K' {
		return nil, string(b[1:])
	}
	files, err := evo.Response(b[1:])
	if err != nil {
		return nil, err.Error()
	}
	return files, ""
}

// The generator runs in a process of its own, which some requests may end.
var server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out io.Reader
}

// GenServe is that process: lengths and requests on standard input, lengths and
// responses on standard output.
func GenServe() int {
	var n [4]byte
	for {
		if _, err := io.ReadFull(os.Stdin, n[:]); err != nil {
			return 0
		}
		req := make([]byte, binary.LittleEndian.Uint32(n[:]))
		if _, err := io.ReadFull(os.Stdin, req); err != nil {
			return 2
		}
		b := respond(req)
		binary.LittleEndian.PutUint32(n[:], uint32(len(b)))
		os.Stdout.Write(append(n[:], b...))
	}
}

// respond returns K and the response or E and why there is none.
func respond(req []byte) (b []byte) {
	defer func() {
		if r := recover(); r != nil {
			b = []byte(fmt.Sprintf("Ethe generator panics: %v", r))
		}
	}()
	var q generate.CodeGeneratorRequest
	if err := proto.Unmarshal(req, &q); err != nil {
		return []byte("Enot a request: " + err.Error())
	}
	res, err := generate.Generate(&q)
	if err != nil {
		return []byte("E" + err.Error())
	}
	b, err = proto.Marshal(res)
	if err != nil {
		return []byte("E" + err.Error())
	}
	return append([]byte("K"), b...)
}

func serve(req []byte) []byte {
	if server.cmd == nil {
		self, err := os.Executable()
		if err != nil {
			die("%v", err)
		}
		cmd := exec.Command(self, "genserve")
		if server.in, err = cmd.StdinPipe(); err != nil {
			die("%v", err)
		}
		if server.out, err = cmd.StdoutPipe(); err != nil {
			die("%v", err)
		}
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		server.cmd = cmd
		OnExit = append(OnExit, func() {
			if server.cmd == cmd {
				server.in.Close()
				cmd.Wait()
			}
		})
	}
	t := time.AfterFunc(60*time.Second, func() { die("the generator does not come to an end") })
	defer t.Stop()
	var n [4]byte
	binary.LittleEndian.PutUint32(n[:], uint32(len(req)))
	_, err := server.in.Write(append(n[:], req...))
	if err == nil {
		_, err = io.ReadFull(server.out, n[:])
	}
	if err == nil {
		b := make([]byte, binary.LittleEndian.Uint32(n[:]))
		if _, err = io.ReadFull(server.out, b); err == nil && len(b) > 0 {
			return b
		}
	}
	server.in.Close()
	why := server.cmd.Wait()
	server.cmd = nil
	return []byte(fmt.Sprintf("Ethe generator ends its process: %v", why))
}

// wanted counts the files that a request asks for and describes, -1 if that is
// not clear.
func wanted(req []byte) int {
	rs, st := Parse(req)
	if st != OK {
		return -1
	}
	asked, known := map[string]bool{}, map[string]bool{}
	for _, r := range rs {
		p := req[r.Pay:r.End]
		switch r.Num {
		case 1:
			if r.WT != WBytes {
				return -1
			}
			asked[string(p)] = true
		case 15:
			fs, st := Parse(p)
			if st != OK || r.WT != WBytes {
				return -1
			}
			name := ""
			for _, f := range fs {
				if f.Num == 1 {
					if f.WT != WBytes {
						return -1
					}
					name = string(p[f.Pay:f.End])
				}
			}
			if known[name] {
				return -1
			}
			known[name] = true
		}
	}
	n := 0
	for name := range known {
		if asked[name] {
			n++
		}
	}
	return n
}

// Requests drawn for C13 and C15.
func genRequest(r *Rng) []byte {
	fam := evo.Family(r.U64(), r.N(4))
	v := fam[r.N(len(fam))]
	if r.P(1, 6) {
		// Large: a response beyond the buffers of pipes and writers.
		for i := range v.Files {
			if v.Files[i].Skip || len(v.Files[i].Types) == 0 {
				continue
			}
			n := r.In(5, 60)
			if r.P(1, 6) {
				n = r.In(100, 500)
			}
			for ; n > 0; n-- {
				t := v.Files[i].Types[r.N(len(v.Files[i].Types))]
				t.Name = fmt.Sprintf("%s_%d", t.Name, n)
				v.Files[i].Types = append(v.Files[i].Types, t)
			}
		}
	}
	if r.P(1, 5) {
		evo.Sparse(r, &v)
	}
	b := evo.Request(v.Files)
	if r.P(1, 8) {
		// Files are named again, files nobody describes are asked for.
		for n := r.In(1, 3); n > 0; n-- {
			name := fmt.Sprintf("other%d.proto", r.N(3))
			if r.P(3, 4) {
				name = v.Files[r.N(len(v.Files))].Name
			}
			b = append(append(PutTag(nil, 1, WBytes), PutVarint(nil, uint64(len(name)), 1)...), append([]byte(name), b...)...)
		}
	}
	if r.P(1, 12) {
		// The parameter of the request, which changes nothing.
		n := []int{500, 4000, 33000, 66000, 140000, 300000}[r.N(6)] + r.N(1000)
		if r.P(1, 4) {
			// Fields begin and end at a power of two.
			n = 1 << uint(r.In(9, 23))
			n -= 1 + VarintLen(uint64(n))
			if r.P(1, 3) {
				n -= len(b)
			}
			if n < 0 {
				n = 0
			}
			n -= r.N(2) * r.N(2)
		}
		if n < 0 {
			n = 0
		}
		p := append(PutTag(nil, 2, WBytes), PutVarint(nil, uint64(n), 1)...)
		p = append(p, Text(n, r.U64())...)
		if r.P(1, 2) {
			b = append(b, p...)
		} else {
			b = append(p, b...)
		}
	}
	return b
}

var errnos = map[string][]syscall.Errno{
	"r": {syscall.EIO, syscall.EBADF, syscall.EISDIR, syscall.ENOMEM, syscall.EAGAIN},
	"w": {syscall.EIO, syscall.ENOSPC, syscall.EPIPE, syscall.EBADF, syscall.EAGAIN, syscall.EFBIG, syscall.EDQUOT, syscall.ENOMEM},
}

func init() {
	Scenarios["C13"] = &Scenario{
		Rule: "one script per seed: a request (drawn schema families, some with responses beyond 64 KiB, some damaged or cut) and scripts of answers to the plugin's read and write calls on descriptors 0, 1 and 2 (short, interrupted, failing once or for good with a given error, premature end, zero-byte writes); exit status, output and messages are compared with what the generator makes of the bytes delivered. Non-trivial: at least one answer differed from a plain full transfer; distinct by hash of the system-call trace",
		Real: "cmd/protoc-gen-zeropb main, os and internal/poll, generate, golang/protobuf, process exit", Stub: "read(2) and write(2) on descriptors 0-2",
		Gen: genPlugin(false),
		Run: runPlugin,
	}
	Scenarios["C17"] = &Scenario{
		Rule: "one script per seed: a request (drawn schema families, some damaged or cut) and scripts of answers to the text plugin's read and write calls on descriptors 0, 1 and 2 (short, interrupted, failing once or for good, premature end, zero-byte writes); exit status and output are compared with the request delivered, which a process of its own reads with the types of golang/protobuf. Two thirds of the requests are drawn field by field from all that a request can have. Non-trivial: at least one answer differed from a plain full transfer; distinct by hash of the system-call trace",
		Real: "cmd/protoc-gen-text main, os and internal/poll, generate's request type, golang/protobuf's text format, process exit", Stub: "read(2) and write(2) on descriptors 0-2",
		Gen: genPlugin(true),
		Run: runPlugin,
	}
}

func genPlugin(text bool) func(r *Rng, sc *Script) {
	return func(r *Rng, sc *Script) {
		var req []byte
		if text && r.P(2, 3) {
			// Any field a request can have.
			req = ask('d', binary.LittleEndian.AppendUint64(nil, r.U64()), nil)
		} else {
			req = genRequest(r)
		}
		sc.Steps = append(sc.Steps, Step{Op: "req", B: req})
		p := &sc.Steps[0]
		switch r.N(8) {
		case 0: // cut
			n := r.N(len(req))
			p.Faults = append(p.Faults, Fault{K: "early-eof", A: n, N: len(req)})
		case 1:
			for n := r.In(1, 3); n > 0; n-- {
				p.Faults = append(p.Faults, GenFault(r, NewSchema(), ApplyAll(req, p.Faults), nil))
			}
		case 2: // nothing at all, or a request for nothing
			if r.P(1, 2) {
				p.B = nil
			} else {
				fam := evo.Family(r.U64(), 0)
				fam[0].Files[0].Skip = true
				p.B = evo.Request(fam[0].Files)
			}
		}
		in := ApplyAll(p.B, p.Faults)
		size := 0
		if text {
			var q generate.CodeGeneratorRequest
			if proto.Unmarshal(in, &q) == nil {
				size = len(proto.MarshalTextString(&q))
			}
		} else if fs, why := expected(in); why == "" {
			for _, f := range fs {
				size += len(f.Content) + 30
			}
		}
		var ends []int
		if rs, _ := Parse(in); len(rs) > 0 {
			for _, f := range rs {
				ends = append(ends, f.End)
			}
		}
		cut := func(n, pos int, read bool) int {
			if read && len(ends) > 0 && r.P(1, 3) {
				if e := ends[r.N(len(ends))]; e > pos {
					return e - pos // at the end of a field
				}
			}
			switch r.N(6) {
			case 0:
				return r.N(n/8 + 1)
			case 1:
				if n > 4096 {
					return 4096 * r.In(1, n/4096)
				}
			case 2:
				return n - r.N(min(n, 20)+1)
			case 3:
				if n > 65536 {
					return 65536
				}
			case 4:
				return 512
			}
			return r.N(n + 1)
		}
		slow := r.P(1, 25)
		script := func(fd string, op string, total int, hard bool) {
			pos := 0
			for n := r.N(6); n > 0; n-- {
				if slow && r.P(1, 3) {
					sc.Steps = append(sc.Steps, Step{Op: fd, S: "t", L: []int{1, 12, 100, 4000}[r.N(4)]})
				}
				switch r.N(4) {
				case 0:
					for k := r.In(1, 3); k > 0; k-- {
						sc.Steps = append(sc.Steps, Step{Op: fd, S: "i"})
					}
				default:
					c := cut(total-pos, pos, fd == "0")
					if pos < total && c > 0 {
						sc.Steps = append(sc.Steps, Step{Op: fd, S: "d", L: c})
						pos += c
					}
				}
			}
			if !hard {
				return
			}
			es := errnos[op]
			e := int(es[r.N(len(es))])
			switch k := r.N(8); {
			case k == 0 && op == "r":
				sc.Steps = append(sc.Steps, Step{Op: fd, S: "z"})
			case k == 0:
				sc.Steps = append(sc.Steps, Step{Op: fd, S: "0"})
			case k < 3:
				sc.Steps = append(sc.Steps, Step{Op: fd, S: "e", L: e})
			default:
				sc.Steps = append(sc.Steps, Step{Op: fd, S: "E", L: e})
			}
		}
		mode := r.N(6) // 4, 5: nothing worse than short and interrupted transfers
		script("0", "r", len(in), mode == 1)
		if text {
			script("2", "w", size, mode == 2 || mode == 3)
			return
		}
		script("1", "w", size, mode == 2 || mode == 3)
		if r.P(1, 4) {
			script("2", "w", 200, r.P(1, 2))
		}
	}
}

// NewSchema returns an empty schema, for damage at any place.
func NewSchema() *Schema {
	s := &Schema{}
	s.Init()
	return s
}

func runPlugin(sc *Script, st *Stats) *Violation {
	text := sc.Prop == "C17"
	bin := os.Getenv("VERIF_PLUGIN")
	if text {
		bin = os.Getenv("VERIF_PLUGIN_TEXT")
	}
	if bin == "" {
		die("the plugin to run is not set")
	}
	if c13dir == "" {
		d, err := os.MkdirTemp("", "zplug")
		if err != nil {
			die("%v", err)
		}
		c13dir = d
		OnExit = append(OnExit, func() { os.RemoveAll(d) })
	}
	var in []byte
	var head bytes.Buffer
	hard, pipe := false, false
	for i := range sc.Steps {
		p := &sc.Steps[i]
		switch p.Op {
		case "req":
			for _, f := range p.Faults {
				st.Fault(f.K)
			}
			in = ApplyAll(p.B, p.Faults)
		case "0", "1", "2":
			fmt.Fprintf(&head, "%s %s %d\n", p.Op, p.S, p.L)
		}
	}
	file := filepath.Join(c13dir, "s")
	if head.Len() == 0 {
		head.WriteString("\n")
	}
	if err := os.WriteFile(file, append(append(head.Bytes(), '\n'), in...), 0600); err != nil {
		die("%v", err)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		die("%v", err)
	}
	cmd := exec.Command(bin)
	cmd.Env = []string{"VERIFSIM_SCRIPT=" + file, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "PATH=/nonexistent", "HOME=" + c13dir}
	cmd.Dir = c13dir
	cmd.ExtraFiles = []*os.File{pw}
	var rawOut, rawErr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &rawOut, &rawErr
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	pw.Close()
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	log, err := io.ReadAll(pr)
	pr.Close()
	werr := cmd.Wait()
	inTime := t.Stop()
	if err != nil {
		die("%v", err)
	}
	if werr != nil {
		if _, ok := werr.(*exec.ExitError); !ok {
			die("%v", werr)
		}
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if !inTime {
		return violation("hang", 0, "the plugin does not end")
	}

	// What happened.
	var out, msgs []byte
	delivered, hung, early := 0, false, false
	for len(log) >= 10 {
		fd, kind := log[0], log[1]
		want, res := int(int32(binary.LittleEndian.Uint32(log[2:]))), int(int32(binary.LittleEndian.Uint32(log[6:])))
		log = log[10:]
		st.Steps++
		st.Note(uint64(fd), uint64(kind), uint64(want), uint64(res))
		switch {
		case fd == 9:
			hung = true
		case kind == 't':
			st.Fault("stalled-peer")
			st.C["simulated-seconds"] += res
			hard = true // it may give up
		case fd == 0 && kind == 'd':
			delivered += res
			if res < want && res > 0 && delivered < len(in) {
				st.Fault("short-read")
			}
			if res == 0 && delivered < len(in) {
				st.Fault("early-eof")
				hard, early = true, true
			}
		case kind == 'd':
			if res < want {
				st.Fault("short-write")
			}
			if fd == 1 {
				out = append(out, log[:res]...)
			} else {
				msgs = append(msgs, log[:res]...)
			}
			log = log[res:]
		case kind == 'i':
			st.Fault("eintr")
		case kind == 'e':
			st.Fault(map[bool]string{true: "read-", false: "write-"}[fd == 0] + errname(res))
			hard = true
			if syscall.Errno(res) == syscall.EPIPE {
				pipe = true
			}
			if fd == 2 {
				msgs = append(msgs, '?')
			}
		case kind == '0':
			st.Fault("zero-write")
			hard = true
			if fd == 2 {
				msgs = append(msgs, '?')
			}
		}
	}
	out = append(out, rawOut.Bytes()...)
	msgs = append(msgs, rawErr.Bytes()...)
	code := ws.ExitStatus()
	if ws.Signaled() && ws.Signal() == syscall.SIGKILL && inTime {
		die("the simulated kernel failed")
	}
	if hung {
		return violation("hang", 0, "the plugin keeps making system calls")
	}
	offered := in[:min(delivered, len(in))]
	if delivered > len(in) {
		die("delivered %d of %d bytes", delivered, len(in))
	}
	st.Log("delivered %d of %d bytes, %d bytes out, %d bytes of messages, status %v", delivered, len(in), len(out), len(msgs), ws)
	if ws.Exited() && code == 0 {
		st.Count("probe:status-zero")
		// Everything up to the end it saw is what it was asked.
		if !early && len(offered) < len(in) {
			return violation("unread", 0, "status 0 after reading only %d of %d bytes", delivered, len(in))
		}
		if text {
			return judgeText(offered, out, msgs, st)
		}
		want, why := expected(offered)
		if why != "" {
			return violation("false-success", 0, "status 0 although there is no response to the %d bytes delivered: %s; messages: %.200q", delivered, why, msgs)
		}
		got, err := evo.Response(out)
		if n := wanted(offered); err == nil && n >= 0 && len(got) != n {
			return violation("bad-output", 0, "status 0 with %d bytes of output: %d files for a request for %d", len(out), len(got), n)
		}
		if err != nil {
			return violation("bad-output", 0, "status 0 with %d bytes of output: %v", len(out), err)
		}
		if d := diffFiles(got, want); d != "" {
			return violation("bad-output", 0, "status 0 with %d bytes of output: %s", len(out), d)
		}
		return nil
	}
	st.Count("probe:status-nonzero")
	if ws.Signaled() && ws.Signal() == syscall.SIGPIPE && pipe {
		st.Count("probe:sigpipe")
		return nil
	}
	if len(msgs) == 0 {
		return violation("silent", 0, "it fails (%v) without a message", statusString(ws))
	}
	if text {
		var q generate.CodeGeneratorRequest
		if !hard && proto.Unmarshal(in, &q) == nil {
			return violation("spurious-failure", 0, "it fails (%v: %.300s) although nothing but short and interrupted transfers happened", statusString(ws), msgs)
		}
		return nil
	}
	if want, why := expected(in); !hard && why == "" && want != nil {
		return violation("spurious-failure", 0, "it fails (%v: %.300s) although nothing but short and interrupted transfers happened", statusString(ws), msgs)
	}
	return nil
}

// judgeText decides whether what the text plugin wrote is its request.
func judgeText(req, out, text []byte, st *Stats) *Violation {
	var want, got generate.CodeGeneratorRequest
	if err := proto.Unmarshal(req, &want); err != nil {
		return violation("false-success", 0, "status 0 although the %d bytes delivered are no request (%v); output: %.200q", len(req), err, text)
	}
	if len(out) > 0 {
		var res generate.CodeGeneratorResponse
		if err := proto.Unmarshal(out, &res); err != nil {
			return violation("bad-output", 0, "%d bytes on standard output that protoc cannot read: %v", len(out), err)
		}
	}
	switch why := string(ask('j', req, text)); why {
	case "":
		st.Count("probe:text-complete")
		return nil
	case "-":
	default:
		return violation("bad-output", 0, "status 0 with %d bytes of text for a request of %d: %s", len(text), len(req), why)
	}
	if string(text) == proto.MarshalTextString(&want) {
		return nil
	}
	var again generate.CodeGeneratorRequest
	if err := proto.UnmarshalText(proto.MarshalTextString(&want), &again); err != nil || !proto.Equal(&want, &again) {
		// Unknown fields and the like have no text to parse back.
		st.Count("probe:no-faithful-text")
		return nil
	}
	if err := proto.UnmarshalText(string(text), &got); err != nil {
		return violation("bad-output", 0, "status 0 with %d bytes of text that do not parse: %v", len(text), err)
	}
	if !proto.Equal(&want, &got) {
		return violation("bad-output", 0, "status 0 with %d bytes of text of a different request", len(text))
	}
	return nil
}

func statusString(ws syscall.WaitStatus) string {
	if ws.Signaled() {
		return ws.Signal().String()
	}
	return fmt.Sprintf("status %d", ws.ExitStatus())
}

func errname(n int) string {
	for e, s := range map[syscall.Errno]string{syscall.EIO: "EIO", syscall.EBADF: "EBADF", syscall.EISDIR: "EISDIR", syscall.ENOMEM: "ENOMEM", syscall.EAGAIN: "EAGAIN",
		syscall.ENOSPC: "ENOSPC", syscall.EPIPE: "EPIPE", syscall.EFBIG: "EFBIG", syscall.EDQUOT: "EDQUOT"} {
		if int(e) == n {
			return s
		}
	}
	return fmt.Sprint(n)
}

func diffFiles(got, want []evo.Out) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d files, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] == want[i] {
			continue
		}
		if got[i].Name != want[i].Name {
			return fmt.Sprintf("file %d is named %q, want %q", i, got[i].Name, want[i].Name)
		}
		g, w := got[i].Content, want[i].Content
		k := 0
		for k < len(g) && k < len(w) && g[k] == w[k] {
			k++
		}
		return fmt.Sprintf("%s has %d bytes, want %d; they differ from byte %d: %q, want %q", got[i].Name, len(g), len(w), k, clip(g, k), clip(w, k))
	}
	return ""
}

func clip(s string, k int) string {
	s = s[max(0, k-20):]
	if len(s) > 60 {
		s = s[:60]
	}
	return strings.ToValidUTF8(s, "?")
}
