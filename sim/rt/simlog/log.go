// Package simlog replaces package log: messages go to the simulated standard
// error, fatal ones end the simulated process.
package simlog

import (
	"fmt"
	"io"

	"VERIFSIM/sim"
	"VERIFSIM/simos"
)

// Logger is a simulated logger; it prints no time stamps.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return simos.Stderr.Write(p) }

var std = &Logger{w: stderr{}}

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{w: out, prefix: prefix, flags: flag}
}

func Default() *Logger { return std }

// SimReset restores the standard logger.
func SimReset() { *std = Logger{w: stderr{}} }

func (l *Logger) Output(calldepth int, s string) error {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	_, err := io.WriteString(l.w, l.prefix+s)
	return err
}

func (l *Logger) Print(v ...any)                 { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(format string, v ...any) { l.Output(2, fmt.Sprintf(format, v...)) }
func (l *Logger) Println(v ...any)               { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...any)                 { l.Output(2, fmt.Sprint(v...)); simos.Exit(1) }
func (l *Logger) Fatalf(format string, v ...any) {
	l.Output(2, fmt.Sprintf(format, v...))
	simos.Exit(1)
}
func (l *Logger) Fatalln(v ...any) { l.Output(2, fmt.Sprintln(v...)); simos.Exit(1) }
func (l *Logger) Panic(v ...any)   { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(format string, v ...any) {
	s := fmt.Sprintf(format, v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) Panicln(v ...any)        { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) SetFlags(flag int)       { l.flags = flag }
func (l *Logger) Flags() int              { return l.flags }
func (l *Logger) SetPrefix(prefix string) { l.prefix = prefix }
func (l *Logger) Prefix() string          { return l.prefix }
func (l *Logger) SetOutput(w io.Writer)   { l.w = w }
func (l *Logger) Writer() io.Writer       { return l.w }

func SetOutput(w io.Writer)                { std.SetOutput(w) }
func SetFlags(flag int)                    { std.SetFlags(flag) }
func Flags() int                           { return std.Flags() }
func SetPrefix(p string)                   { std.SetPrefix(p) }
func Prefix() string                       { return std.Prefix() }
func Writer() io.Writer                    { return std.Writer() }
func Output(calldepth int, s string) error { return std.Output(calldepth+1, s) }
func Print(v ...any)                       { std.Print(v...) }
func Printf(format string, v ...any)       { std.Printf(format, v...) }
func Println(v ...any)                     { std.Println(v...) }
func Fatal(v ...any)                       { std.Fatal(v...) }
func Fatalf(format string, v ...any)       { std.Fatalf(format, v...) }
func Fatalln(v ...any)                     { std.Fatalln(v...) }
func Panic(v ...any)                       { std.Panic(v...) }
func Panicf(format string, v ...any)       { std.Panicf(format, v...) }
func Panicln(v ...any)                     { std.Panicln(v...) }

var _ = sim.Step
