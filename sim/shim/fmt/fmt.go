// Package fmt is the simulated stand-in for the standard package.
package fmt

import (
	sfmt "fmt"
	"verifsim/shim/os"
)

func Print(a ...interface{}) (int, error)                 { return os.Stdout.Write([]byte(sfmt.Sprint(a...))) }
func Println(a ...interface{}) (int, error)               { return os.Stdout.Write([]byte(sfmt.Sprintln(a...))) }
func Printf(f string, a ...interface{}) (int, error)      { return os.Stdout.Write([]byte(sfmt.Sprintf(f, a...))) }
