package heavyhash

// VHFullRank tells whether a matrix would be used, rather than another one drawn.
func VHFullRank(m [size][size]uint16) bool {
	mat := matrix(m)
	return calculateRank(&mat) == size
}
