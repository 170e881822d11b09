// Package fmt prints to the standard output of the simulated process.
package fmt

import (
	std "fmt"

	simos "verif.local/sim/shim/os"
)

func Print(a ...any) (int, error)            { return simos.Stdout.Write([]byte(std.Sprint(a...))) }
func Println(a ...any) (int, error)          { return simos.Stdout.Write([]byte(std.Sprintln(a...))) }
func Printf(f string, a ...any) (int, error) { return simos.Stdout.Write([]byte(std.Sprintf(f, a...))) }
