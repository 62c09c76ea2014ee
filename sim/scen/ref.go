package scen

import (
	"bufio"
	"encoding/binary"
	"io"
	"os"
	"os/exec"
)

// refd is a process that knows requests by other types than the repository's,
// see cmd/zref.
var refd struct {
	in  io.WriteCloser
	out *bufio.Reader
}

func ask(op byte, a, b []byte) []byte {
	if refd.in == nil {
		cmd := exec.Command(os.Getenv("VERIF_REF"))
		in, err := cmd.StdinPipe()
		if err != nil {
			die("%v", err)
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			die("the reference: %v", err)
		}
		refd.in, refd.out = in, bufio.NewReader(out)
		OnExit = append(OnExit, func() { in.Close(); cmd.Wait() })
	}
	q := []byte{op}
	for _, x := range [][]byte{a, b} {
		q = binary.LittleEndian.AppendUint32(q, uint32(len(x)))
		q = append(q, x...)
	}
	if _, err := refd.in.Write(q); err != nil {
		die("the reference: %v", err)
	}
	var n uint32
	if err := binary.Read(refd.out, binary.LittleEndian, &n); err != nil {
		die("the reference: %v", err)
	}
	res := make([]byte, n)
	if _, err := io.ReadFull(refd.out, res); err != nil {
		die("the reference: %v", err)
	}
	return res
}
