// Package smscounter is /repo/cmd/smscounter, whose source is laid in here, with
// the packages of the outside world replaced, each time a check runs.
package smscounter

// Main runs the command.
func Main() { main() }
