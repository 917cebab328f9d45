package ssync

import "verifsim/simrt"

// annotate tells the race detector about the simulated primitives.
const annotate = true

//go:norace
func point() { simrt.G(0) }
