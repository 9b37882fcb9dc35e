package main

import (
	_ "verif/mc/checks"
	"verif/mc/fw"
)

func main() { fw.Main() }
