package octopus

// VHRemap maps a word to its coefficient.
func VHRemap(h uint64) uint64 { return remap(h) }
