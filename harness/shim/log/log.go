// Package log stands for the standard package in commands run by a harness.
package log

import (
	"fmt"
	"io"

	"vph/shim/env"
)

// Flags of the standard package.
const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

// Logger is a logger; the time is not among what it prints.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{w: env.Stderr, flags: LstdFlags}

// New returns a logger that writes to w.
func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{w, prefix, flags} }

// Default returns a logger to standard error.
func Default() *Logger { return std }

func (l *Logger) line(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	io.WriteString(l.w, l.prefix+s)
}

func (l *Logger) SetFlags(f int)        { l.flags = f }
func (l *Logger) Flags() int            { return l.flags }
func (l *Logger) SetPrefix(p string)    { l.prefix = p }
func (l *Logger) Prefix() string        { return l.prefix }
func (l *Logger) SetOutput(w io.Writer) { l.w = w }
func (l *Logger) Writer() io.Writer     { return l.w }
func (l *Logger) Output(_ int, s string) error {
	l.line(s)
	return nil
}

func (l *Logger) Print(a ...interface{})            { l.line(fmt.Sprint(a...)) }
func (l *Logger) Println(a ...interface{})          { l.line(fmt.Sprintln(a...)) }
func (l *Logger) Printf(f string, a ...interface{}) { l.line(fmt.Sprintf(f, a...)) }
func (l *Logger) Fatal(a ...interface{}) {
	l.line(fmt.Sprint(a...))
	env.Exit(1)
}
func (l *Logger) Fatalln(a ...interface{}) {
	l.line(fmt.Sprintln(a...))
	env.Exit(1)
}
func (l *Logger) Fatalf(f string, a ...interface{}) {
	l.line(fmt.Sprintf(f, a...))
	env.Exit(1)
}
func (l *Logger) Panic(a ...interface{}) {
	s := fmt.Sprint(a...)
	l.line(s)
	panic(s)
}
func (l *Logger) Panicln(a ...interface{}) {
	s := fmt.Sprintln(a...)
	l.line(s)
	panic(s)
}
func (l *Logger) Panicf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	l.line(s)
	panic(s)
}

func SetFlags(f int)               { std.SetFlags(f) }
func Flags() int                   { return std.Flags() }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Prefix() string               { return std.Prefix() }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func Writer() io.Writer            { return std.Writer() }
func Output(n int, s string) error { return std.Output(n, s) }

func Print(a ...interface{})            { std.Print(a...) }
func Println(a ...interface{})          { std.Println(a...) }
func Printf(f string, a ...interface{}) { std.Printf(f, a...) }
func Fatal(a ...interface{})            { std.Fatal(a...) }
func Fatalln(a ...interface{})          { std.Fatalln(a...) }
func Fatalf(f string, a ...interface{}) { std.Fatalf(f, a...) }
func Panic(a ...interface{})            { std.Panic(a...) }
func Panicln(a ...interface{})          { std.Panicln(a...) }
func Panicf(f string, a ...interface{}) { std.Panicf(f, a...) }
