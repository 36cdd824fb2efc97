// Command mc explores the sequential properties.
package main

import (
	"verif/eng"
	_ "verif/seq"
)

func main() { eng.Main() }
