// Package filepath is the simulated stand-in for path/filepath.
package filepath

import (
	"io/fs"
	"os"
	sfp "path/filepath"
	"verifsim/sim"
)

func Glob(pattern string) ([]string, error) { return sim.Glob(pattern) }
func Walk(root string, fn sfp.WalkFunc) error {
	return sim.Walk(root, fn)
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return sim.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if fi == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(fi), err)
	})
}
func EvalSymlinks(path string) (string, error) { return sfp.Clean(path), nil }
func Abs(path string) (string, error) {
	if sfp.IsAbs(path) {
		return sfp.Clean(path), nil
	}
	return sfp.Join("/work", path), nil
}
