// Command mcm explores the properties that depend on map iteration orders and the extractor; it is built over
// sources whose map iterations go through package vmap.
package main

import (
	"verif/eng"
	_ "verif/seq"
	_ "verif/xg"
)

func main() { eng.Main() }
