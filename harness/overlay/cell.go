package replication

// Export for the verification harness; compiled in through an overlay only.

func VerifCellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
	return cellLength(data, pos, typ, metadata)
}
