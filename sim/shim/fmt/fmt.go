// Package fmt stands in for fmt: the standard streams are the simulated ones.
package fmt

import (
	"fmt"
	"io"
	"lhasim/shim/os"
)

type (
	Formatter  = fmt.Formatter
	GoStringer = fmt.GoStringer
	ScanState  = fmt.ScanState
	Scanner    = fmt.Scanner
	State      = fmt.State
	Stringer   = fmt.Stringer
)

func Append(b []byte, a ...any) []byte            { return fmt.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte { return fmt.Appendf(b, f, a...) }
func Appendln(b []byte, a ...any) []byte          { return fmt.Appendln(b, a...) }
func Errorf(f string, a ...any) error             { return fmt.Errorf(f, a...) }
func FormatString(s State, v rune) string         { return fmt.FormatString(s, v) }
func Fprint(w io.Writer, a ...any) (int, error)   { return fmt.Fprint(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return fmt.Fprintf(w, f, a...)
}
func Fprintln(w io.Writer, a ...any) (int, error)         { return fmt.Fprintln(w, a...) }
func Fscan(r io.Reader, a ...any) (int, error)            { return fmt.Fscan(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) { return fmt.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)          { return fmt.Fscanln(r, a...) }
func Print(a ...any) (int, error)                         { return fmt.Fprint(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error)              { return fmt.Fprintf(os.Stdout, f, a...) }
func Println(a ...any) (int, error)                       { return fmt.Fprintln(os.Stdout, a...) }
func Scan(a ...any) (int, error)                          { return fmt.Fscan(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)               { return fmt.Fscanf(os.Stdin, f, a...) }
func Scanln(a ...any) (int, error)                        { return fmt.Fscanln(os.Stdin, a...) }
func Sprint(a ...any) string                              { return fmt.Sprint(a...) }
func Sprintf(f string, a ...any) string                   { return fmt.Sprintf(f, a...) }
func Sprintln(a ...any) string                            { return fmt.Sprintln(a...) }
func Sscan(s string, a ...any) (int, error)               { return fmt.Sscan(s, a...) }
func Sscanf(s string, f string, a ...any) (int, error)    { return fmt.Sscanf(s, f, a...) }
func Sscanln(s string, a ...any) (int, error)             { return fmt.Sscanln(s, a...) }
