// Package os is the simulated stand-in for the standard package.
package os

import (
	sos "os"
	"time"
	"verifsim/sim"
)

type File = sim.File

var (
	Stdin  = sim.NewStream("/dev/stdin", func() *sim.Capture { return &sim.Capture{} })
	Stdout = sim.NewStream("/dev/stdout", func() *sim.Capture { return sim.R.Stdout })
	Stderr = sim.NewStream("/dev/stderr", func() *sim.Capture { return sim.R.Stderr })
	Args   = []string{"/usr/bin/simapp"}
)

func Open(name string) (*File, error)                            { return sim.Open(name) }
func Create(name string) (*File, error)                          { return sim.Create(name) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) { return sim.OpenFile(name, flag, perm) }
func NewFile(fd uintptr, name string) *File                      { sim.Unsupported("os.NewFile"); return nil }
func Stat(name string) (FileInfo, error)                         { return sim.Stat(name) }
func Lstat(name string) (FileInfo, error)                        { return sim.Stat(name) }
func SameFile(a, b FileInfo) bool                                { return sim.SameFile(a, b) }
func Rename(a, b string) error                                   { return sim.Rename(a, b) }
func Link(a, b string) error                                     { return sim.Link(a, b) }
func Remove(name string) error                                   { return sim.Remove(name) }
func RemoveAll(name string) error                                { return sim.RemoveAll(name) }
func Mkdir(name string, perm FileMode) error                     { return sim.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error                  { return sim.MkdirAll(name, perm) }
func MkdirTemp(dir, pattern string) (string, error)              { return sim.MkdirTemp(dir, pattern) }
func CreateTemp(dir, pattern string) (*File, error)              { return sim.CreateTemp(dir, pattern) }
func ReadDir(name string) ([]DirEntry, error)                    { return sim.ReadDir(name) }
func ReadFile(name string) ([]byte, error)                       { return sim.ReadFile(name) }
func WriteFile(name string, data []byte, perm FileMode) error    { return sim.WriteFile(name, data, perm) }
func Chown(name string, uid, gid int) error                      { return sim.Chown(name, uid, gid) }
func Lchown(name string, uid, gid int) error                     { return sim.Chown(name, uid, gid) }
func Chmod(name string, mode FileMode) error                     { return sim.Chmod(name, mode) }
func Chtimes(name string, a, m time.Time) error                  { return sim.Chtimes(name, a, m) }
func Truncate(name string, size int64) error                     { return sim.Truncate(name, size) }
func TempDir() string                                            { return "/tmp" }
func Getwd() (string, error)                                     { return "/work", nil }
func Hostname() (string, error)                                  { return "simhost", nil }
func Executable() (string, error)                                { return "/usr/bin/simapp", nil }
func Getpid() int                                                { return 4242 }
func Getppid() int                                               { return 1 }
func Getuid() int                                                { return 0 }
func Geteuid() int                                               { return 0 }
func Getgid() int                                                { return 0 }
func Getegid() int                                               { return 0 }
func Getenv(key string) string                                   { return "" }
func LookupEnv(key string) (string, bool)                        { return "", false }
func Environ() []string                                          { return nil }
func Symlink(a, b string) error                                  { sim.Unsupported("os.Symlink"); return nil }
func Readlink(a string) (string, error)                          { sim.Unsupported("os.Readlink"); return "", nil }
func Chdir(a string) error                                       { sim.Unsupported("os.Chdir"); return nil }
func Setenv(k, v string) error                                   { return nil }
func Unsetenv(k string) error                                    { return nil }
func Exit(code int)                                              { sim.Fatal("os.Exit called") }
func Pipe() (r *File, w *File, err error)                        { sim.Unsupported("os.Pipe"); return }
func StartProcess(name string, argv []string, attr *sos.ProcAttr) (*sos.Process, error) {
	sim.Unsupported("os.StartProcess")
	return nil, nil
}
func FindProcess(pid int) (*sos.Process, error) { sim.Unsupported("os.FindProcess"); return nil, nil }
func CopyFS(a string, b interface{}) error      { sim.Unsupported("os.CopyFS"); return nil }
func DirFS(a string) interface{}                { sim.Unsupported("os.DirFS"); return nil }
