// Command vh runs the code under test on generated inputs and records what it does.
package main

import (
	"os"
	"runtime/debug"
	"strconv"
)

func main() {
	if len(os.Args) < 5 {
		fatal("usage: vh CMD WHICH OUT SEED [deep]")
	}
	seed, err := strconv.ParseInt(os.Args[4], 10, 64)
	if err != nil {
		fatal(err)
	}
	deep := len(os.Args) > 5 && os.Args[5] == "deep"
	debug.SetMaxStack(64 << 20)
	go watch()
	switch os.Args[1] {
	case "streams":
		cmdStreams(os.Args[2], os.Args[3], seed, deep, os.Args[5:])
	case "events":
		cmdEvents(os.Args[2], os.Args[3], seed, deep)
	case "gtids":
		cmdGtids(os.Args[2], os.Args[3], seed, deep)
	case "txs":
		cmdTxs(os.Args[2], os.Args[3], seed, deep)
	case "cells":
		cmdCells(os.Args[2], os.Args[3], seed, deep)
	default:
		fatal("unknown command ", os.Args[1])
	}
}
