package main

import (
	"fmt"
	"os"
	"time"
)

var profOn = os.Getenv("GOVER_PROF") != ""

// prof prints what took longer than a tenth of a second.
func prof(kind string, what func() string) func() {
	if !profOn {
		return func() {}
	}
	t0 := time.Now()
	return func() {
		if d := time.Since(t0); d > 100*time.Millisecond {
			fmt.Fprintf(os.Stderr, "PROF %s %.2f %s\n", kind, d.Seconds(), what())
		}
	}
}

func clip(s string) string { return s[:min(len(s), 120)] }
