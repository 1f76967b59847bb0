// Package log stands in for log: it writes to the simulated standard error.
package log

import (
	"fmt"
	"io"
	"lhasim/shim/os"
	"log"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

func New(w io.Writer, prefix string, flag int) *Logger { return log.New(w, prefix, 0) }
func Default() *Logger                                 { return log.New(os.Stderr, "", 0) }
func Print(a ...any)                                   { fmt.Fprintln(os.Stderr, fmt.Sprint(a...)) }
func Printf(f string, a ...any)                        { fmt.Fprintf(os.Stderr, f+"\n", a...) }
func Println(a ...any)                                 { fmt.Fprintln(os.Stderr, a...) }
func Fatal(a ...any)                                   { Print(a...); os.Exit(1) }
func Fatalf(f string, a ...any)                        { Printf(f, a...); os.Exit(1) }
func Fatalln(a ...any)                                 { Println(a...); os.Exit(1) }
func Panic(a ...any)                                   { s := fmt.Sprint(a...); Print(s); panic(s) }
func Panicf(f string, a ...any)                        { s := fmt.Sprintf(f, a...); Print(s); panic(s) }
func Panicln(a ...any)                                 { s := fmt.Sprintln(a...); Print(s); panic(s) }
func SetFlags(int)                                     {}
func Flags() int                                       { return 0 }
func SetPrefix(string)                                 {}
func Prefix() string                                   { return "" }
func SetOutput(io.Writer)                              {}
func Writer() io.Writer                                { return os.Stderr }
