// Package simmaphash replaces hash/maphash in the code under test: the seeds, which a
// real process draws anew, come from the run's environment.
package simmaphash

import (
	"encoding/binary"
	"fmt"

	"vsim/rt"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{rt.EnvRand() | 1} }

func Bytes(seed Seed, b []byte) uint64 {
	h := rt.Mix(seed.s, uint64(len(b)))
	for _, c := range b {
		h = rt.Mix(h, uint64(c))
	}
	return h
}
func String(seed Seed, s string) uint64 { return Bytes(seed, []byte(s)) }
func Comparable[T comparable](seed Seed, v T) uint64 {
	return String(seed, fmt.Sprintf("%#v", any(v)))
}
func WriteComparable[T comparable](h *Hash, x T) {
	h.WriteString(fmt.Sprintf("%#v", any(x)))
}

// Hash is the zero value ready to use, as the real one.
type Hash struct {
	seed Seed
	buf  []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error)       { h.buf = append(h.buf, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) { h.buf = append(h.buf, s...); return len(s), nil }
func (h *Hash) WriteByte(b byte) error            { h.buf = append(h.buf, b); return nil }
func (h *Hash) Sum64() uint64                     { h.init(); return Bytes(h.seed, h.buf) }
func (h *Hash) Sum(b []byte) []byte               { return binary.BigEndian.AppendUint64(b, h.Sum64()) }
func (h *Hash) Reset()                            { h.init(); h.buf = h.buf[:0] }
func (h *Hash) Seed() Seed                        { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)                    { h.seed, h.buf = s, h.buf[:0] }
func (h *Hash) Size() int                         { return 8 }
func (h *Hash) BlockSize() int                    { return 128 }

// VrtShim marks the simulated package.
const VrtShim = 0
