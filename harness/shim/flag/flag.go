// Package flag stands for the standard package in commands run by a harness.
package flag

import (
	"errors"
	"io"
	"strconv"
	"time"

	"vph/shim/env"
	"vph/shim/os"
)

// Value is where a flag is kept.
type Value interface {
	String() string
	Set(string) error
}

// Getter is a Value that can be read.
type Getter interface {
	Value
	Get() interface{}
}

// Flag is a flag.
type Flag struct {
	Name     string
	Usage    string
	Value    Value
	DefValue string
}

// ErrorHandling is what becomes of errors.
type ErrorHandling int

// As in the standard package.
const (
	ContinueOnError ErrorHandling = iota
	ExitOnError
	PanicOnError
)

// ErrHelp is the error of -help.
var ErrHelp = errors.New("flag: help requested")

type stringValue struct{ p *string }

func (v stringValue) Set(s string) error { *v.p = s; return nil }
func (v stringValue) String() string     { return *v.p }

var errParse = errors.New("parse error")

type intValue struct{ p *int }

func (v intValue) Set(s string) error {
	n, err := strconv.ParseInt(s, 0, strconv.IntSize)
	if err != nil {
		return errParse
	}
	*v.p = int(n)
	return nil
}
func (v intValue) String() string { return strconv.Itoa(*v.p) }

type int64Value struct{ p *int64 }

func (v int64Value) Set(s string) error {
	n, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		return errParse
	}
	*v.p = n
	return nil
}
func (v int64Value) String() string { return strconv.FormatInt(*v.p, 10) }

type uintValue struct{ p *uint }

func (v uintValue) Set(s string) error {
	n, err := strconv.ParseUint(s, 0, strconv.IntSize)
	if err != nil {
		return errParse
	}
	*v.p = uint(n)
	return nil
}
func (v uintValue) String() string { return strconv.FormatUint(uint64(*v.p), 10) }

type durationValue struct{ p *time.Duration }

func (v durationValue) Set(s string) error {
	d, err := time.ParseDuration(s)
	if err != nil {
		return errParse
	}
	*v.p = d
	return nil
}
func (v durationValue) String() string { return v.p.String() }

type boolValue struct{ p *bool }

func (v boolValue) Set(s string) error {
	b, err := strconv.ParseBool(s)
	if err != nil {
		return errParse
	}
	*v.p = b
	return nil
}
func (v boolValue) String() string   { return strconv.FormatBool(*v.p) }
func (v boolValue) IsBoolFlag() bool { return true }

type funcValue func(string) error

func (f funcValue) Set(s string) error { return f(s) }
func (f funcValue) String() string     { return "" }

type boolFuncValue func(string) error

func (f boolFuncValue) Set(s string) error { return f(s) }
func (f boolFuncValue) String() string     { return "" }
func (f boolFuncValue) IsBoolFlag() bool   { return true }

// FlagSet is a set of flags.
type FlagSet struct {
	Usage  func()
	name   string
	eh     ErrorHandling
	out    io.Writer
	flags  []*Flag
	set    []*Flag
	args   []string
	parsed bool
	kept   int // flags of packages, which stay
}

// NewFlagSet returns a set.
func NewFlagSet(name string, eh ErrorHandling) *FlagSet { return &FlagSet{name: name, eh: eh} }

// CommandLine is the set of the command.
var CommandLine = NewFlagSet("command", ExitOnError)

// Usage prints a usage message.
var Usage = func() { PrintDefaults() }

var started bool

// Reset forgets the flags of the last command, except for those that belong to
// packages.
func Reset() {
	c := CommandLine
	if !started {
		started = true
		c.kept = len(c.flags)
	}
	c.flags = c.flags[:c.kept:c.kept]
	for _, f := range c.flags {
		f.Value.Set(f.DefValue)
	}
	c.set, c.args, c.parsed, c.out, c.Usage = nil, nil, false, nil, nil
	Usage = func() { PrintDefaults() }
}

func (f *FlagSet) Init(name string, eh ErrorHandling) { f.name, f.eh = name, eh }
func (f *FlagSet) Name() string                       { return f.name }
func (f *FlagSet) ErrorHandling() ErrorHandling       { return f.eh }
func (f *FlagSet) SetOutput(w io.Writer)              { f.out = w }
func (f *FlagSet) Output() io.Writer {
	if f.out == nil {
		return os.Stderr
	}
	return f.out
}
func (f *FlagSet) Args() []string { return f.args }
func (f *FlagSet) NArg() int      { return len(f.args) }
func (f *FlagSet) Arg(i int) string {
	if i < 0 || i >= len(f.args) {
		return ""
	}
	return f.args[i]
}
func (f *FlagSet) NFlag() int   { return len(f.set) }
func (f *FlagSet) Parsed() bool { return f.parsed }

func (f *FlagSet) Var(v Value, name, usage string) {
	f.flags = append(f.flags, &Flag{name, usage, v, v.String()})
}
func (f *FlagSet) StringVar(p *string, name, v, usage string) {
	*p = v
	f.Var(stringValue{p}, name, usage)
}
func (f *FlagSet) IntVar(p *int, name string, v int, usage string) {
	*p = v
	f.Var(intValue{p}, name, usage)
}
func (f *FlagSet) Int64Var(p *int64, name string, v int64, usage string) {
	*p = v
	f.Var(int64Value{p}, name, usage)
}
func (f *FlagSet) UintVar(p *uint, name string, v uint, usage string) {
	*p = v
	f.Var(uintValue{p}, name, usage)
}
func (f *FlagSet) BoolVar(p *bool, name string, v bool, usage string) {
	*p = v
	f.Var(boolValue{p}, name, usage)
}
func (f *FlagSet) DurationVar(p *time.Duration, name string, v time.Duration, usage string) {
	*p = v
	f.Var(durationValue{p}, name, usage)
}
func (f *FlagSet) Func(name, usage string, fn func(string) error) { f.Var(funcValue(fn), name, usage) }
func (f *FlagSet) BoolFunc(name, usage string, fn func(string) error) {
	f.Var(boolFuncValue(fn), name, usage)
}
func (f *FlagSet) String(name, v, usage string) *string {
	p := new(string)
	f.StringVar(p, name, v, usage)
	return p
}
func (f *FlagSet) Int(name string, v int, usage string) *int {
	p := new(int)
	f.IntVar(p, name, v, usage)
	return p
}
func (f *FlagSet) Int64(name string, v int64, usage string) *int64 {
	p := new(int64)
	f.Int64Var(p, name, v, usage)
	return p
}
func (f *FlagSet) Uint(name string, v uint, usage string) *uint {
	p := new(uint)
	f.UintVar(p, name, v, usage)
	return p
}
func (f *FlagSet) Bool(name string, v bool, usage string) *bool {
	p := new(bool)
	f.BoolVar(p, name, v, usage)
	return p
}
func (f *FlagSet) Duration(name string, v time.Duration, usage string) *time.Duration {
	p := new(time.Duration)
	f.DurationVar(p, name, v, usage)
	return p
}
func (f *FlagSet) Lookup(name string) *Flag {
	for _, x := range f.flags {
		if x.Name == name {
			return x
		}
	}
	return nil
}
func (f *FlagSet) Set(name, v string) error {
	if f.Lookup(name) == nil {
		return errors.New("no such flag -" + name)
	}
	return f.assign(name, v)
}

// assign sets flags of that name: packages of several commands may have one.
func (f *FlagSet) assign(name, v string) error {
	for _, x := range f.flags {
		if x.Name != name {
			continue
		}
		if err := x.Value.Set(v); err != nil {
			return errors.New("invalid value for flag -" + name + ": " + err.Error())
		}
		f.set = append(f.set, x)
	}
	return nil
}
func (f *FlagSet) Visit(fn func(*Flag)) {
	for _, x := range f.set {
		fn(x)
	}
}
func (f *FlagSet) VisitAll(fn func(*Flag)) {
	for _, x := range f.flags {
		fn(x)
	}
}
func (f *FlagSet) PrintDefaults() {
	for _, d := range f.flags {
		io.WriteString(f.Output(), "  -"+d.Name+"\n")
	}
}

func (f *FlagSet) usage() {
	switch {
	case f.Usage != nil:
		f.Usage()
	case f == CommandLine:
		Usage()
	default:
		f.PrintDefaults()
	}
}

// Parse reads flags of the form -name, -name value and -name=value.
func (f *FlagSet) Parse(arguments []string) error {
	f.parsed = true
	f.args = arguments
	err := f.parse()
	if err == nil {
		return nil
	}
	if err != ErrHelp {
		io.WriteString(f.Output(), err.Error()+"\n")
	}
	f.usage()
	switch f.eh {
	case ExitOnError:
		if err == ErrHelp {
			os.Exit(0)
		}
		os.Exit(2)
	case PanicOnError:
		panic(err)
	}
	return err
}

func (f *FlagSet) parse() error {
	for len(f.args) > 0 {
		a := f.args[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		f.args = f.args[1:]
		if a == "--" {
			break
		}
		name := a[1:]
		if name[0] == '-' {
			name = name[1:]
		}
		if len(name) == 0 || name[0] == '-' || name[0] == '=' {
			return errors.New("bad flag syntax: " + a)
		}
		val, has := "", false
		for i := 0; i < len(name); i++ {
			if name[i] == '=' {
				val, has, name = name[i+1:], true, name[:i]
				break
			}
		}
		d := f.Lookup(name)
		if d == nil {
			if name == "help" || name == "h" {
				return ErrHelp
			}
			return errors.New("flag provided but not defined: -" + name)
		}
		if b, ok := d.Value.(interface{ IsBoolFlag() bool }); ok && b.IsBoolFlag() {
			if !has {
				val = "true"
			}
		} else if !has {
			if len(f.args) == 0 {
				return errors.New("flag needs an argument: -" + name)
			}
			val, f.args = f.args[0], f.args[1:]
		}
		if err := f.assign(name, val); err != nil {
			return err
		}
	}
	return nil
}

// Of the command.

func Parse()                                             { CommandLine.Parse(env.Args[1:]) }
func Parsed() bool                                       { return CommandLine.Parsed() }
func Args() []string                                     { return CommandLine.Args() }
func NArg() int                                          { return CommandLine.NArg() }
func NFlag() int                                         { return CommandLine.NFlag() }
func Arg(i int) string                                   { return CommandLine.Arg(i) }
func PrintDefaults()                                     { CommandLine.PrintDefaults() }
func Var(v Value, name, usage string)                    { CommandLine.Var(v, name, usage) }
func StringVar(p *string, name, v, usage string)         { CommandLine.StringVar(p, name, v, usage) }
func IntVar(p *int, name string, v int, usage string)    { CommandLine.IntVar(p, name, v, usage) }
func BoolVar(p *bool, name string, v bool, usage string) { CommandLine.BoolVar(p, name, v, usage) }
func UintVar(p *uint, name string, v uint, usage string) { CommandLine.UintVar(p, name, v, usage) }
func Int64Var(p *int64, name string, v int64, usage string) {
	CommandLine.Int64Var(p, name, v, usage)
}
func DurationVar(p *time.Duration, name string, v time.Duration, usage string) {
	CommandLine.DurationVar(p, name, v, usage)
}
func Func(name, usage string, fn func(string) error)     { CommandLine.Func(name, usage, fn) }
func BoolFunc(name, usage string, fn func(string) error) { CommandLine.BoolFunc(name, usage, fn) }
func String(name, v, usage string) *string               { return CommandLine.String(name, v, usage) }
func Int(name string, v int, usage string) *int          { return CommandLine.Int(name, v, usage) }
func Int64(name string, v int64, usage string) *int64    { return CommandLine.Int64(name, v, usage) }
func Uint(name string, v uint, usage string) *uint       { return CommandLine.Uint(name, v, usage) }
func Bool(name string, v bool, usage string) *bool       { return CommandLine.Bool(name, v, usage) }
func Duration(name string, v time.Duration, usage string) *time.Duration {
	return CommandLine.Duration(name, v, usage)
}
func Lookup(name string) *Flag { return CommandLine.Lookup(name) }
func Set(name, v string) error { return CommandLine.Set(name, v) }
func Visit(fn func(*Flag))     { CommandLine.Visit(fn) }
func VisitAll(fn func(*Flag))  { CommandLine.VisitAll(fn) }
