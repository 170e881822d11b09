// Package ioutil replaces the standard package inside the simulation.
package ioutil

import (
	"io/fs"

	"verif.local/sim/shim/os"
)

func ReadFile(p string) ([]byte, error)                 { return os.ReadFile(p) }
func WriteFile(p string, b []byte, m fs.FileMode) error { return os.WriteFile(p, b, m) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func ReadDir(p string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(p)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
