//go:build !cellexport

package main

import rp "github.com/Breeze0806/gobinlog/replication"

// cellLength: without access to the length rule, what the decoder consumes stands for it; rows
// events compare the two.
func cellLength(d []byte, pos int, typ byte, meta uint16) (int, error) {
	_, n, err := rp.CellBytes(d, pos, typ, meta, false)
	return n, err
}
