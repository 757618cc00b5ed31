// World codegen: the code generator, its files and its command.
package main

import "verifsim/w"

func main() {
	w.StepBudget = 60_000_000 // computing takes most of them
	w.Main()
}
