//go:build ticks

package main

import "github.com/wdamron/amt"

const ticking = true

// ticks is the number of blocks of the package's code entered so far.
func ticks() int64 { return int64(amt.VerifTicks()) }
