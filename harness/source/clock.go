package source

// SetClock sets the clock of the process to a time in Unix seconds; every look at it
// moves it by so many nanoseconds. It is nil where the clock cannot be moved.
var SetClock func(sec, step int64, on bool)
