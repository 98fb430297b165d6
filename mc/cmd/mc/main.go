package main

import (
	_ "verif.local/mc/checks"
	"verif.local/mc/x"
)

func main() { x.Main() }
