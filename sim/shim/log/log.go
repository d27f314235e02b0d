// Package log is the simulated stand-in for the standard package.
package log

import (
	"fmt"
	"verifsim/shim/os"
)

func Print(a ...interface{})            { os.Stderr.Write([]byte(fmt.Sprint(a...) + "\n")) }
func Println(a ...interface{})          { os.Stderr.Write([]byte(fmt.Sprintln(a...))) }
func Printf(f string, a ...interface{}) { os.Stderr.Write([]byte(fmt.Sprintf(f, a...) + "\n")) }
func Fatal(a ...interface{})            { Print(a...); os.Exit(1) }
func Fatalf(f string, a ...interface{}) { Printf(f, a...); os.Exit(1) }
func Fatalln(a ...interface{})          { Println(a...); os.Exit(1) }
func Panic(a ...interface{})            { Print(a...); panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...interface{}) { Printf(f, a...); panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...interface{})          { Println(a...); panic(fmt.Sprintln(a...)) }
