package ref

// CycleOK decides a cuckoo proof from its definition: edges[i] joins ends[i][0]
// on one side and ends[i][1] on the other. It must be in range, the edges
// strictly ascending, and all of them together one single cycle.
func CycleOK(mask uint64, size int, edges []uint64, ends func(edge uint64) [2]uint64) bool {
	if len(edges) != size || size < 2 {
		return false
	}
	type node struct {
		side int
		v    uint64
	}
	adj := map[node][]int{}
	for i, e := range edges {
		if e > mask || (i > 0 && edges[i-1] >= e) {
			return false
		}
		uv := ends(e)
		for s := 0; s < 2; s++ {
			adj[node{s, uv[s]}] = append(adj[node{s, uv[s]}], i)
		}
	}
	for _, es := range adj {
		if len(es) != 2 {
			return false
		}
	}
	// every node has degree 2: the graph is a union of cycles; connected means one
	seen := make([]bool, size)
	var visit func(i int) int
	visit = func(i int) int {
		if seen[i] {
			return 0
		}
		seen[i] = true
		n := 1
		uv := ends(edges[i])
		for s := 0; s < 2; s++ {
			for _, j := range adj[node{s, uv[s]}] {
				n += visit(j)
			}
		}
		return n
	}
	return visit(0) == size
}
