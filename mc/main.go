package main

import (
	"verifmc/core"
	_ "verifmc/props"
)

func main() { core.Main() }
