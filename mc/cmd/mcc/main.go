// Command mcc explores the concurrency properties; it is built with -race and over the instrumented sources.
package main

import (
	_ "verif/conc"
	"verif/eng"
)

func main() { eng.Main() }
