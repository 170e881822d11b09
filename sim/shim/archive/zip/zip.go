// Package zip replaces the standard package inside the simulation.
package zip

import (
	std "archive/zip"

	"verif.local/sim/shim/os"
)

type ReadCloser struct {
	f *os.File
	std.Reader
}

func OpenReader(name string) (*ReadCloser, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	r, err := std.NewReader(f, fi.Size())
	if err != nil {
		f.Close()
		return nil, err
	}
	return &ReadCloser{f, *r}, nil
}
func (rc *ReadCloser) Close() error { return rc.f.Close() }
