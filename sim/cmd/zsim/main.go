// Command zsim runs simulated scenarios: check (many seeds, several
// processes), worker, replay, minimise, hashes.
package main

import (
	"os"

	_ "verifsim/golden"
	"verifsim/runner"
)

func main() { os.Exit(runner.Main(os.Args[1:])) }
