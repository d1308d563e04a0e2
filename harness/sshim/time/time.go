// Package time stands for the standard package in replays of schedules.
package time

import (
	"time"

	"vph/vp"
)

// Timer is scheduled by the record.
type Timer struct{ r vp.Timer }

// AfterFunc arms a timer that expires when the record says so.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	vp.StartTimer(&t.r, d, f, false)
	return t
}

// Stop disarms.
func (t *Timer) Stop() bool { return vp.StopTimer(&t.r) }

// Reset arms again.
func (t *Timer) Reset(d time.Duration) bool { return vp.ResetTimer(&t.r, d) }

// Sleep is where others may run.
func Sleep(d time.Duration) { vp.Point() }
