//go:build verifclock

package source

import (
	"os"
	"strconv"
	"time"
)

// The runners of some properties are compiled with a time package whose clock can be
// moved (see build_clock in check.py). The process may start at another time.
func init() {
	base := int64(0)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_CLOCK"), 10, 64); err == nil {
		base = (s - time.Now().Unix()) * 1e9
	}
	SetClock = func(sec, step int64, on bool) {
		if !on {
			time.VerifClock(base, 0)
			return
		}
		time.VerifClock(base, 0)
		now := time.Now()
		time.VerifClock(base+sec*1e9-now.UnixNano(), step)
	}
	SetClock(0, 0, false)
}
