// Package os stands for the standard package in commands run by a harness.
package os

import (
	"os"

	"vph/shim/env"
)

// Standard streams.
var (
	Stdin  = env.Stdin
	Stdout = env.Stdout
	Stderr = env.Stderr
)

// File is an input or output.
type File = env.File

// Args are the arguments.
var Args = []string{"command"}

func init() { env.Started = func() { Args = append([]string(nil), env.Args...) } }

// Exit ends the command.
func Exit(code int) { env.Exit(code) }

// Getenv finds nothing.
func Getenv(string) string { return "" }

// LookupEnv finds nothing.
func LookupEnv(string) (string, bool) { return "", false }

// Errors and types of the standard package.
var (
	ErrInvalid    = os.ErrInvalid
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrPermission = os.ErrPermission
)

// PathError is that of the standard package.
type PathError = os.PathError
