// Package smsdecode is /repo/cmd/smsdecode, whose source is laid in here, with
// the packages of the outside world replaced, each time a check runs.
package smsdecode

// Main runs the command.
func Main() { main() }
