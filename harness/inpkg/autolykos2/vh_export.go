package autolykos2

// VHCalcN is the table size.
func VHCalcN(base uint32, height uint64) uint32 { return calcN(base, height) }
