// Package filepath is the simulated replacement for the parts of path/filepath
// that look at the disk or the working directory.
package filepath

import (
	"io/fs"
	"path"
	real "path/filepath"
	"sort"
	"syscall"

	"zsim/shim/os"
	"zsim/simfs"
)

func Abs(name string) (string, error) { return simfs.Abs(name), nil }

// EvalSymlinks finds no links: the simulated disk has none.
func EvalSymlinks(name string) (string, error) {
	if _, err := os.Stat(name); err != nil {
		return "", &fs.PathError{Op: "lstat", Path: name, Err: syscall.ENOENT}
	}
	return path.Clean(name), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	var out []string
	for _, e := range simfs.Cur.Entries {
		if ok, _ := real.Match(simfs.Abs(pattern), e.Name); ok && !e.Gone && !e.Fresh {
			name := e.Name
			if !real.IsAbs(pattern) {
				name, _ = real.Rel(simfs.Cwd, name)
			}
			out = append(out, name)
		}
	}
	sort.Strings(out)
	return out, nil
}

func WalkDir(root string, f fs.WalkDirFunc) error { panic("filepath.WalkDir is not simulated") }
func Walk(root string, f WalkFunc) error          { panic("filepath.Walk is not simulated") }
