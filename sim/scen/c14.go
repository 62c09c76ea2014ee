package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"

	. "verifsim/core"
	"verifsim/simrt"

	"github.com/danhhz/zeropb/generate"
)

// c14: text helpers on writers that fail at a chosen byte.

type simWriter struct {
	got    []byte
	failAt int // byte that cannot be written, -1: none
	mode   int // 0: fails there for ever, 1: once, 2: once, after taking all of it, 3: another error each time
	failed int
	first  error
	after  int // calls after the first failure
	err    error
}

var errShort = errors.New("first failure of the writer")

// tempErr is an error of the kind that invites to try again.
type tempErr struct{}

func (*tempErr) Error() string   { return "try again" }
func (*tempErr) Temporary() bool { return true }
func (*tempErr) Timeout() bool   { return true }

// writerErrors are the errors a writer fails with.
func writerErrors() []error {
	return []error{errShort, syscall.EINTR, syscall.EAGAIN, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF,
		&os.PathError{Op: "write", Path: "out", Err: syscall.EINTR}, &os.PathError{Op: "write", Path: "out", Err: syscall.ENOSPC},
		syscall.EPIPE, os.ErrClosed, os.ErrDeadlineExceeded, &tempErr{}, io.ErrClosedPipe, io.ErrNoProgress, bytes.ErrTooLarge,
		fmt.Errorf("wrapped: %w", syscall.EAGAIN), context.Canceled}
}

// simStringWriter is a simWriter with the optional methods of writers.
type simStringWriter struct{ *simWriter }

func (w simStringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w simStringWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w *simWriter) Write(p []byte) (int, error) {
	if w.failed > 0 {
		w.after++
		if w.mode == 0 || w.mode == 3 {
			w.failed++
			if w.mode == 3 {
				return 0, fmt.Errorf("failure %d", w.failed)
			}
			return 0, w.first
		}
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if w.failAt >= 0 && len(w.got)+len(p) > w.failAt {
		w.failed = 1
		w.first = w.err
		if w.mode == 3 {
			w.first = fmt.Errorf("failure %d", w.failed)
		}
		n := w.failAt - len(w.got)
		if w.mode == 2 {
			n = len(p)
		}
		w.got = append(w.got, p[:n]...)
		return n, w.first
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

type simStringer struct{ s string }

func (s *simStringer) String() string { return s.s }

type simStringerV int

func (s simStringerV) String() string { return "v" + strconv.Itoa(int(s)) }

var indents = []string{"  ", "\t", "", "ab", "            "}

// piece makes an argument for StringTree.Write and the text it stands for.
func piece(p *Step, indent string) (any, string) {
	switch p.K % 8 {
	case 0:
		n := p.L % 7
		return generate.StringTreeIndent(n), strings.Repeat(indent, n)
	case 1:
		n := p.L % 6
		x := generate.StringTreeIndent(0)
		for i := 0; i < n; i++ {
			x = x.Next()
		}
		return x, strings.Repeat(indent, n)
	case 2:
		b := Pattern(p.L, p.V)
		return b, string(b)
	case 3, 4:
		s := string(value(KString, p.L, p.V))
		if p.V%5 == 0 {
			s += "\n%s%d\x00\xff"
		}
		return s, s
	case 5:
		s := string(value(KString, p.L, p.V))
		return &simStringer{s}, s
	case 6:
		return simStringerV(p.V), simStringerV(p.V).String()
	default:
		return int32(p.V), strconv.FormatInt(int64(int32(p.V)), 10)
	}
}

// odd makes an argument of a type StringTree need not know.
func odd(p *Step) any {
	switch p.V % 9 {
	case 0:
		return int(p.L)
	case 1:
		return p.V
	case 2:
		return p.L&1 == 1
	case 3:
		return nil
	case 4:
		return errShort
	case 5:
		return int64(p.V)
	case 6:
		return float64(p.L) / 8
	case 7:
		return []string{"a", "b"}
	default:
		return struct{ A int }{p.L}
	}
}

func init() {
	Scenarios["C14"] = &Scenario{
		Rule: "one script per seed: 3-60 pieces of all supported types, grouped into calls, go to 1-3 text helpers whose writers fail at a drawn byte (for good, once, once after taking everything, or with a different error each time) or not at all; after every call, what the writer holds and the error reported are compared with the reference. Non-trivial: a writer failed; distinct by hash of (piece type, outcome) sequence",
		Real: "generate.StringTree", Stub: "the io.Writer below it",
		Gen: func(r *Rng, sc *Script) {
			n := r.In(1, 3)
			sc.Threads = n
			max := []int{8, 40, 300}[r.N(3)]
			if r.P(1, 30) {
				max = 9000
			}
			total := make([]int, n)
			for k := r.In(3, 60); k > 0; k-- {
				p := Step{T: r.N(n), Op: "piece", K: r.N(8), L: r.N(max), V: r.Scalar(), F: r.N(2)}
				if r.P(1, 10) {
					p.L = 0
				}
				if r.P(2, 3) && len(sc.Steps) > 0 {
					p.T = sc.Steps[len(sc.Steps)-1].T
				}
				_, s := piece(&p, indents[0])
				if r.P(1, 40) {
					p.Op, s = "odd", ""
				}
				total[p.T] += len(s)
				sc.Steps = append(sc.Steps, p)
			}
			for t := 0; t < n; t++ {
				sc.Opt[fmt.Sprintf("indent%d", t)] = r.N(len(indents))
				at := -1
				if r.P(3, 4) {
					at = r.N(total[t] + 3)
				}
				sc.Opt[fmt.Sprintf("fail%d", t)] = at
				sc.Opt[fmt.Sprintf("mode%d", t)] = r.N(4)
				sc.Opt[fmt.Sprintf("err%d", t)] = r.N(64)
			}
		},
		Run: func(sc *Script, st *Stats) *Violation {
			return solo(sc, st, func() *Violation {
				n := threads(sc)
				ws := make([]*simWriter, n)
				trees := make([]*generate.StringTree, n)
				want := make([]string, n)
				errs := writerErrors()
				dead := make([]bool, n)
				for t := range ws {
					e := sc.Opt[fmt.Sprintf("err%d", t)]
					ws[t] = &simWriter{failAt: sc.Opt[fmt.Sprintf("fail%d", t)], mode: sc.Opt[fmt.Sprintf("mode%d", t)], err: errs[e%len(errs)]}
					var w io.Writer = ws[t]
					if e%3 == 0 {
						w = simStringWriter{ws[t]}
					}
					trees[t] = generate.NewStringTree(w, indents[sc.Opt[fmt.Sprintf("indent%d", t)]%len(indents)])
				}
				for i := 0; i < len(sc.Steps); {
					t := sc.Steps[i].T % n
					indent := indents[sc.Opt[fmt.Sprintf("indent%d", t)]%len(indents)]
					var args []any
					size := 0
					from := i
					before := want[t]
					strange := false
					for ok := true; ok; {
						p := &sc.Steps[i]
						if p.Op == "odd" { // the last one of its call
							args = append(args, odd(p))
							strange = true
							st.Fault("piece-of-another-type")
							i++
							break
						}
						a, s := piece(p, indent)
						args = append(args, a)
						want[t] += s
						size += len(s)
						st.Note(uint64(p.K%8), uint64(t))
						i++
						ok = p.F == 1 && i < len(sc.Steps) && sc.Steps[i].T%n == t
					}
					simrt.SetLimit(100000 + 100*uint64(size))
					w := ws[t]
					was := w.failed
					if dead[t] {
						continue
					}
					v := guard(from, func() *Violation {
						if !strange {
							trees[t].Write(args...)
						} else {
							refused := refuses(func() { trees[t].Write(args...) })
							switch {
							case refused && strings.HasPrefix(want[t], string(w.got)) && len(w.got) >= len(before):
								want[t] = string(w.got) // what it passed on before it refused
							case !refused && trees[t].Error() == nil && len(w.got) <= len(want[t]):
								return violation("text", from, "tree %d: a %T is neither written nor refused", t, args[len(args)-1])
							case !refused && len(w.got) > len(want[t]) && strings.HasPrefix(string(w.got), want[t]):
								want[t] = string(w.got) // however it writes that
							case !refused && w.failed == 0 && trees[t].Error() != nil:
								dead[t] = true // refused in another way
								return nil
							}
						}
						err := trees[t].Error()
						if again := trees[t].Error(); (err == nil) != (again == nil) {
							return violation("error", from, "tree %d: the helper reports %v and, asked again, %v", t, err, again)
						}
						switch {
						case !strings.HasPrefix(want[t], string(w.got)):
							return violation("text", from, "tree %d: the writer holds %s, not the beginning of %s", t, tailHex(w.got), tailHex([]byte(want[t])))
						case w.after > 0:
							return violation("write-after-error", from, "tree %d: the writer is called again after its failure", t)
						case w.failed > 0 && err != w.first && !errors.Is(err, w.first):
							return violation("error", from, "tree %d: the writer failed with %q, the helper reports %v", t, w.first, err)
						case w.failed == 0 && err != nil:
							return violation("error", from, "tree %d: no failure, the helper reports %v", t, err)
						case w.failed == 0 && len(w.got) != len(want[t]):
							return violation("text", from, "tree %d: the writer has %d bytes of %d", t, len(w.got), len(want[t]))
						}
						return nil
					})
					if w.failed > was && was == 0 {
						st.Fault([]string{"write-fails-for-good", "write-fails-once", "write-fails-after-taking-all", "write-fails-differently"}[w.mode&3])
					}
					st.Note(uint64(w.failed), uint64(len(w.got)))
					if v != nil {
						return v
					}
				}
				return nil
			})
		},
	}
}

// refuses: whether f panics. The simulation's own panics go on.
func refuses(f func()) (refused bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case simrt.Hang:
			panic(e)
		default:
			refused = true
		}
	}()
	f()
	return false
}

func tailHex(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("...%q (%d bytes)", b[len(b)-40:], len(b))
	}
	return fmt.Sprintf("%q", b)
}
