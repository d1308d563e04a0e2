// Package env is the world of a command that is run inside a harness: its
// arguments, what it prints and how it exits.
package env

import "io"

// Exited is the panic value of an exit.
type Exited struct{ Code int }

// State of the running command.
var (
	Args []string
	Out  []byte
	Err  []byte
	// Gone is whether the command has exited: what its deferred functions
	// still do is not seen.
	Gone bool
	// Started is called with each run.
	Started = func() {}
)

// File appends to one of the outputs.
type File struct{ n int }

// The files.
var (
	Stdin  = &File{0}
	Stdout = &File{1}
	Stderr = &File{2}
)

// Read finds nothing.
func (f *File) Read([]byte) (int, error) { return 0, io.EOF }

// Write appends.
func (f *File) Write(b []byte) (int, error) {
	switch {
	case Gone:
	case f.n == 2:
		Err = append(Err, b...)
	default:
		Out = append(Out, b...)
	}
	return len(b), nil
}

// WriteString appends.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Close does nothing.
func (f *File) Close() error { return nil }

// Sync does nothing.
func (f *File) Sync() error { return nil }

// Name is that of the file.
func (f *File) Name() string { return [...]string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}[f.n] }

// Exit ends the command.
func Exit(code int) {
	Gone = true
	panic(Exited{Code: code})
}

// Run runs a command.
func Run(main func(), args ...string) (code int, out, err string) {
	Args, Out, Err, Gone = append([]string{"command"}, args...), nil, nil, false
	Started()
	code = run(main)
	return code, string(Out), string(Err)
}

func run(main func()) (code int) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(Exited)
			if !ok {
				panic(r)
			}
			code = x.Code
		}
	}()
	main()
	return 0
}
