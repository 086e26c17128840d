// Package ioutil is the simulated replacement for io/ioutil.
package ioutil

import (
	"io"
	"io/fs"

	"zsim/shim/os"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)        { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error)       { return os.ReadFile(name) }
func NopCloser(r io.Reader) io.ReadCloser        { return io.NopCloser(r) }
func TempFile(dir, pat string) (*os.File, error) { return os.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)    { return os.MkdirTemp(dir, pat) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
