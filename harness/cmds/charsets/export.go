// Package charsets is /repo/cmd/charsets, whose source is laid in here, with
// the packages of the outside world replaced, each time a check runs.
package charsets

// Main runs the command.
func Main() { main() }
