package simrt

import (
	"math/rand"
	randv2 "math/rand/v2"
)

// dice is the randomness of the code under test, drawn from the run's seed.
type dice struct{}

var diceState Rand

//go:norace
func (dice) Uint64() uint64 { return diceState.Uint64() }

//go:norace
func (dice) Int63() int64 { return int64(diceState.Uint64() >> 1) }

//go:norace
func (dice) Seed(int64) {}

// Random replaces the functions of math/rand.
func Random() *rand.Rand { return rand.New(dice{}) }

// RandomV2 replaces the functions of math/rand/v2.
func RandomV2() *randv2.Rand { return randv2.New(dice{}) }

type entropy struct{}

//go:norace
func (entropy) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(diceState.Uint64())
	}
	return len(b), nil
}

// Entropy replaces crypto/rand.Reader.
var Entropy entropy
