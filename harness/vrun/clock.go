package main

import (
	"math"

	"aaa.verif/harness/source"
	"pgregory.net/rapid"
)

// Clock is the time at which a case runs, in Unix seconds, and the nanoseconds by which
// each look at the clock moves it.
type Clock struct {
	At   int64 `json:"at"`
	Step int64 `json:"step,omitempty"`
}

const day = 86400

// genClock draws a clock, or none.
func genClock(t *rapid.T) *Clock {
	if rapid.Bool().Draw(t, "clock") {
		return nil
	}
	var c Clock
	switch weighted(t, "clock-kind", "edge*2", "day*3", "dict*2", "any") {
	case "edge":
		c.At = pick[int64](t, "edge", 0, -1, 1, 1e9, math.MaxInt32, math.MaxInt32+1, math.MaxUint32, math.MaxUint32+1, 951782400, 1709164800, 4102444800, 1767225599, 1e10-1, -day)
		c.At += pick[int64](t, "edge-off", 0, -2, 1, 1800, 43200)
	case "day": // any day within four years, any hour
		c.At = 1767225600 + day*int64(uniformInt(t, 1461, "day")) + 600*int64(uniformInt(t, 144, "hour"))
	case "dict":
		c.At = 1767225600 + 365*day*int64(uniformInt(t, 40, "year"))
		if v, ok := dictInt(t, "clock", 1, math.MaxInt32); ok {
			switch pick(t, "clock-dict", "unix", "year", "day", "hour") {
			case "unix":
				c.At = int64(v)
			case "year":
				c.At = int64((float64(v) - 1969.9) * 365.2425 * day)
			case "day":
				c.At += day * int64(v%3660)
			case "hour":
				c.At += 3600 * int64(v%24)
			}
		}
	default:
		c.At = int64(uniformInt(t, math.MaxInt32, "at")) * int64(pick(t, "times", 1, 2, 3))
	}
	if c.At < -(1<<32) || c.At > 1<<33 {
		c.At = 1 << 32
	}
	if weighted(t, "steps", "no", "yes") == "yes" {
		c.Step = 1e9 * pick[int64](t, "step", 1, 20, 61, 301, 601, 3601, 25*3600, 40*day, -1, -3601)
	}
	return &c
}

// withClock runs f at another time, if that is possible.
func withClock(c *Clock, f func()) {
	if c == nil || source.SetClock == nil {
		f()
		return
	}
	source.SetClock(c.At, c.Step, true)
	defer source.SetClock(0, 0, false)
	f()
}
