// Package smsdeliver is /repo/cmd/smsdeliver, whose source is laid in here, with
// the packages of the outside world replaced, each time a check runs.
package smsdeliver

// Main runs the command.
func Main() { main() }
