//go:build !setexport

package main

import rp "github.com/Breeze0806/gobinlog/replication"

const haveSetParser = false

// parseSet: the text of a set cannot be parsed from outside the package.
func parseSet(flavor, s string) (rp.GTIDSet, error) { return nil, nil }
