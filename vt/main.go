package main

import (
	"os"
	"runtime/debug"
)

func main() {
	debug.SetGCPercent(400)
	os.Exit(run(os.Args[1:]))
}
