// Command zevo is zsim with the code generated at check time linked in.
package main

import (
	"os"

	_ "verifsim/evogen"
	_ "verifsim/golden"
	"verifsim/runner"
)

func main() { os.Exit(runner.Main(os.Args[1:])) }
