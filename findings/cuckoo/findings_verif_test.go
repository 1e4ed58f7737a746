package cuckoo

import "testing"

// Two cycles that share a vertex are not one cycle.
func TestFindingFigureEight(t *testing.T) {
	edges := []*Edge{
		{U: 1, V: 1}, {U: 1, V: 2}, {U: 2, V: 2}, {U: 2, V: 1},
		{U: 1, V: 3}, {U: 1, V: 4}, {U: 3, V: 4}, {U: 3, V: 3},
	}
	if n := findCycleLength(edges); n == len(edges) {
		t.Fatalf("two 4-cycles sharing a vertex pass as one %d-cycle", n)
	}
}
