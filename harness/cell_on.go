//go:build cellexport

package main

import rp "github.com/Breeze0806/gobinlog/replication"

func cellLength(d []byte, pos int, typ byte, meta uint16) (int, error) {
	return rp.VerifCellLength(d, pos, typ, meta)
}
