//go:build setexport

package main

import rp "github.com/Breeze0806/gobinlog/replication"

const haveSetParser = true

func parseSet(flavor, s string) (rp.GTIDSet, error) { return rp.VerifParseGTIDSet(flavor, s) }
