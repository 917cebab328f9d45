package simrt

// Rand is the only source of randomness of the simulator (splitmix64).
type Rand struct{ s uint64 }

// NewRand returns a generator.
//
//go:norace
func NewRand(seed uint64) *Rand { return &Rand{s: seed ^ 0x5DEECE66D1234567} }

// Uint64 returns the next value.
//
//go:norace
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
//
//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Chance is true with probability p/q.
//
//go:norace
func (r *Rand) Chance(p, q int) bool { return r.Intn(q) < p }

// Geo returns a value of at least 1 with mean about m and a long tail.
//
//go:norace
func (r *Rand) Geo(m int64) int64 {
	if m <= 1 {
		return 1
	}
	// Sum of two uniforms scaled by a random power of two around the mean.
	u := r.Uint64()
	k := int64(1)
	for i := 0; i < 3 && u&1 == 1; i++ {
		k <<= 1
		u >>= 1
	}
	span := m * k
	v := int64(r.Uint64() % uint64(span))
	return v + 1
}

// Mix derives a seed from parts.
//
//go:norace
func Mix(parts ...uint64) uint64 {
	h := uint64(0x243F6A8885A308D3)
	for i := 0; i < len(parts); i++ {
		r := Rand{s: h ^ parts[i]*0x9E3779B97F4A7C15}
		h = r.Uint64() + uint64(i)
	}
	return h
}

// Shuffle permutes n elements.
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
