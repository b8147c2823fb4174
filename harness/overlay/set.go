package replication

// Export for the verification harness; compiled in through an overlay only.

func VerifParseGTIDSet(flavor, s string) (GTIDSet, error) {
	return gtidSetParsers[flavor](s)
}
