//go:build go1.21

package det

// Queue is the capacity that replaces those of 256 and more in this run (0: as written).
var Queue int

// Cap is the capacity of a channel made with capacity n.
func Cap(n int) int {
	if Queue > 0 && Queue < n {
		return Queue
	}
	return n
}
