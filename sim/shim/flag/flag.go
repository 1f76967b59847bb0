// Package flag stands in for flag: arguments and exits are those of the simulated process.
package flag

import (
	"flag"
	"lhasim/shim/os"
	"lhasim/vsim"
	"time"
)

type (
	ErrorHandling = flag.ErrorHandling
	Flag          = flag.Flag
	FlagSet       = flag.FlagSet
	Getter        = flag.Getter
	Value         = flag.Value
)

const (
	ContinueOnError = flag.ContinueOnError
	ExitOnError     = flag.ExitOnError
	PanicOnError    = flag.PanicOnError
)

var (
	ErrHelp     = flag.ErrHelp
	CommandLine = newSet()
	Usage       func()
)

func newSet() *FlagSet {
	s := flag.NewFlagSet("lharc", flag.ContinueOnError)
	s.SetOutput(os.Stderr)
	s.Usage = func() {
		if Usage != nil {
			Usage()
		} else {
			s.PrintDefaults()
		}
	}
	return s
}

func init() {
	vsim.AddSwap(vsim.Swap{
		Fresh: func() { CommandLine.VisitAll(func(f *Flag) { _ = f.Value.Set(f.DefValue) }) },
		Save: func() any {
			m := map[string]string{}
			CommandLine.VisitAll(func(f *Flag) { m[f.Name] = f.Value.String() })
			return m
		},
		Load: func(v any) {
			m := v.(map[string]string)
			CommandLine.VisitAll(func(f *Flag) { _ = f.Value.Set(m[f.Name]) })
		},
	})
}

func Parse() {
	if err := CommandLine.Parse(os.Args[1:]); err != nil {
		if err == ErrHelp {
			os.Exit(0)
		}
		os.Exit(2)
	}
}
func NewFlagSet(n string, e ErrorHandling) *FlagSet {
	s := flag.NewFlagSet(n, flag.ContinueOnError)
	s.SetOutput(os.Stderr)
	return s
}
func Arg(i int) string                               { return CommandLine.Arg(i) }
func Args() []string                                 { return CommandLine.Args() }
func NArg() int                                      { return CommandLine.NArg() }
func NFlag() int                                     { return CommandLine.NFlag() }
func Parsed() bool                                   { return CommandLine.Parsed() }
func PrintDefaults()                                 { CommandLine.PrintDefaults() }
func Set(n, v string) error                          { return CommandLine.Set(n, v) }
func Lookup(n string) *Flag                          { return CommandLine.Lookup(n) }
func Visit(fn func(*Flag))                           { CommandLine.Visit(fn) }
func VisitAll(fn func(*Flag))                        { CommandLine.VisitAll(fn) }
func Bool(n string, v bool, u string) *bool          { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)    { CommandLine.BoolVar(p, n, v, u) }
func Int(n string, v int, u string) *int             { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)       { CommandLine.IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64       { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint          { return CommandLine.Uint(n, v, u) }
func String(n, v, u string) *string                  { return CommandLine.String(n, v, u) }
func StringVar(p *string, n, v, u string)            { CommandLine.StringVar(p, n, v, u) }
func Float64(n string, v float64, u string) *float64 { return CommandLine.Float64(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func Var(v Value, n, u string)                    { CommandLine.Var(v, n, u) }
func Func(n, u string, fn func(string) error)     { CommandLine.Func(n, u, fn) }
func BoolFunc(n, u string, fn func(string) error) { CommandLine.BoolFunc(n, u, fn) }
