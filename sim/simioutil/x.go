// Package simioutil replaces io/ioutil in the code under test.
package simioutil

import (
	"io"

	"vsim/simos"
)

var (
	Discard   = io.Discard
	ReadAll   = io.ReadAll
	NopCloser = io.NopCloser
	ReadFile  = simos.ReadFile
	WriteFile = simos.WriteFile
	TempFile  = simos.CreateTemp
	TempDir   = simos.MkdirTemp
)

// VrtShim marks the simulated package.
const VrtShim = 0

func ReadDir(name string) ([]simos.FileInfo, error) {
	ds, err := simos.ReadDir(name)
	var r []simos.FileInfo
	for _, d := range ds {
		if fi, err := d.Info(); err == nil {
			r = append(r, fi)
		}
	}
	return r, err
}
