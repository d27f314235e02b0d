// Package ioutil is the simulated stand-in for io/ioutil.
package ioutil

import (
	"os"
	"verifsim/sim"
)

func ReadDir(name string) ([]os.FileInfo, error)                  { return sim.ReadDirStat(name) }
func ReadFile(name string) ([]byte, error)                        { return sim.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error  { return sim.WriteFile(name, data, perm) }
func TempFile(dir, pattern string) (*sim.File, error)             { return sim.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)                 { return sim.MkdirTemp(dir, pattern) }
