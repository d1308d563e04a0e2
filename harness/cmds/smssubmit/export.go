// Package smssubmit is /repo/cmd/smssubmit, whose source is laid in here, with
// the packages of the outside world replaced, each time a check runs.
package smssubmit

// Main runs the command.
func Main() { main() }
