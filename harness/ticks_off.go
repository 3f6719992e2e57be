//go:build !ticks

package main

const ticking = false

func ticks() int64 { return 0 }
