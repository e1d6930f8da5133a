// Package simfmt replaces package fmt: standard output is simulated.
package simfmt

import (
	"fmt"

	"VERIFSIM/sim"
	"VERIFSIM/simos"
)

func Print(a ...any) (int, error)                 { return fmt.Fprint(simos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(simos.Stdout, format, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(simos.Stdout, a...) }

func Scan(a ...any) (int, error)                 { panic(sim.Unsupported("fmt.Scan")) }
func Scanf(format string, a ...any) (int, error) { panic(sim.Unsupported("fmt.Scanf")) }
func Scanln(a ...any) (int, error)               { panic(sim.Unsupported("fmt.Scanln")) }
