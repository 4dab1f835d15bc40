// Package simcrand replaces crypto/rand in the code under test: what it yields comes
// from the run's environment.
package simcrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"vsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rt.EnvRand())
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }

func Text() string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = al[b[i]%32]
	}
	return string(b)
}

// VrtShim marks the simulated package.
const VrtShim = 0
