module vph

go 1.27

require github.com/warthog618/sms v0.0.0

replace github.com/warthog618/sms => /repo
